"""Bounded universes of terms.  All of them are enumerated completely, simplest first."""
import datetime
import decimal
import itertools

from .terms import *      # noqa

A1, A2 = A('a'), A('b')
# Atoms whose values collide in Python's == or hash() although they are different atoms.
COLLIDING = [A(1), A(True), A(1.0), A(0), A(False), A(''), A(None), A('1'), A(b'1'), A(-1), A(-2),
             A(decimal.Decimal(1)), A((1,)), A((True,)), A(2 ** 61 - 1 + 1)]


def uniq(seq):
    seen, out = set(), []
    for x in seq:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def couplets_over(atoms):
    return [('c', l, r) for l in atoms for r in atoms]


def subsets(elems_, lo=0, hi=None):
    elems_ = list(elems_)
    hi = len(elems_) if hi is None else hi
    for k in range(lo, hi + 1):
        for c in itertools.combinations(elems_, k):
            yield ('s', frozenset(c))


def multisubsets(elems_, hi, maxmult):
    """All multisets with at most ``hi`` distinct elements and multiplicities up to ``maxmult``."""
    elems_ = list(elems_)
    for k in range(0, hi + 1):
        for c in itertools.combinations(elems_, k):
            for ns in itertools.product(range(1, maxmult + 1), repeat=k):
                yield ('m', frozenset(zip(c, ns)))


def rels2(a=A1, b=A2):
    """All 16 relations over two atoms."""
    return list(subsets(couplets_over([a, b])))


def rels3():
    """All 512 relations over three atoms."""
    return list(subsets(couplets_over([A(1), A(2), A(3)])))


def clans2(k, a=A1, b=A2):
    return list(subsets(rels2(a, b), 0, k))


# A representative list of relations over two or three lefts, used where pairs of (multi)clans are
# taken: functional and not, right-functional and not, equal and different left sets, empty.
def sharp_rels():
    return uniq([
        EMPTY,
        RP(('a', 1)), RP(('a', 2)), RP(('b', 1)), RP(('b', 2)),
        RP(('a', 1), ('b', 1)), RP(('a', 1), ('b', 2)), RP(('a', 2), ('b', 1)),
        RP(('a', 1), ('a', 2)), RP(('a', 1), ('a', 2), ('b', 1)),
        RP(('a', 'b')), RP((1, 'a')), RP(('a', 'a')), RP(('a', 'a'), ('b', 'b'), ('a', 'b'), ('b', 'a')),
    ])


def generic_elems():
    """Elements of every kind, including colliding atoms and nested structures."""
    return [A('a'), A(1), A(True), C('a', 'b'), EMPTY, EMPTYM, S('a'), S(C('a', 'b')),
            M({'a': 1}), M({S(C('a', 'b')): 2}), C(S('a'), 'b'), S(S(C('a', 'b'))), C('a', C('a', 'b'))]


def structured():
    """A collection of values of every kind and nesting (for checks that need 'any value')."""
    r1, r2, r3 = RP(('a', 1)), RP(('a', 2), ('b', 1)), RP(('a', 1), ('a', 2))
    base = [A('a'), A(1), A(True), A(1.0), A(''), A(None), A(2.5),
            C('a', 'b'), C('a'), C('a', 1), C(1, 'a'), C(S('a'), 'b'), C(C('a', 'b'), 'c'), C(EMPTY, EMPTY),
            EMPTY, S('a'), S(1), S('a', 1), S(1, True), S(1, 2, 3), S(S('a')), S(S('a'), S('b')),
            S(EMPTY), S(EMPTY, 'a'), S(C('a', 'b'), 'a'), S('a', r1),
            r1, r2, r3, RP(('a', 'a')), RP(('a', 'b'), ('b', 'a')), RP(('a', 'b'), ('b', 'c')),
            RP(('a', 'a'), ('b', 'b'), ('a', 'b'), ('b', 'a')), S(C(S('a'), 'b')), S(C(C('a'), 'b')),
            S(r1), S(r2), S(r1, r2), S(r1, RP(('a', 2))), S(r3), S(r1, EMPTY), S(r1, r3),
            S(RP(('b', 1)), RP(('a', 1))), S(S(C(S('a'), 'b'))), S(RP(('a', 'a'))),
            S(S(r1)), S(S(r1), S(RP(('a', 2)))), S(S(r1), S(r3)), S(S(r1, r2), S(r1)), S(S(S(r1))),
            S(S(r1), r1), S(S(r1), S('a')),
            EMPTYM, M({'a': 1}), M({'a': 2}), M({1: 1, True: 2}), M({'a': 1, 'b': 3}), M({C('a', 'b'): 2}),
            M({C('a', 'b'): 2, C('a', 'c'): 1, C('b', 'c'): 3}), M({S('a'): 1}),
            M({r1: 1}), M({r1: 2}), M({r1: 1, r2: 2}), M({r1: 1, RP(('a', 2)): 3}), M({r3: 2}), M({EMPTY: 1}),
            M({EMPTY: 1, r1: 2}), M({S(r1): 1}), M({S(C(S('a'), 'b')): 2}), M({M({'a': 2}): 3}),
            S(M({'a': 2}), M({'b': 1})), S(M({r1: 2}), M({r2: 1}))]
    return uniq(base)


# -- scaled, deterministic values: shortcuts keyed to a size must not change the result --------------
SIZES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 25, 31, 32, 33, 50, 63, 64, 65, 99, 100,
         101, 127, 128, 129, 150, 200, 255, 256, 257, 300]
SIZES_XL = [500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4096, 5000]


def int_set(n, start=0, step=1):
    return ('s', frozenset(A(start + step * i) for i in range(n)))


def func_rel(n, start=0, shift=1000, lname='k'):
    return ('s', frozenset(C('{}{}'.format(lname, start + i), shift + i) for i in range(n)))


def chain_rel(n, start=0):
    """The relation i -> i+1: composes with itself."""
    return ('s', frozenset(C(start + i, start + i + 1) for i in range(n)))


def fan_rel(n, left='a', start=0):
    """Not functional: one left, n rights."""
    return ('s', frozenset(C(left, start + i) for i in range(n)))


def row_clan(n, cols=2, start=0, mod=None):
    """A table with n rows."""
    return ('s', frozenset(
        ('s', frozenset(C('c{}'.format(j), (start + i) if j == 0 else (i * (j + 3)) % (mod or 7))
                        for j in range(cols))) for i in range(n)))


def fan_clan(n, k, step=1):
    """n relations that are not functional: k rights at one common left, k at one of their own, and a few couplets besides."""
    return SI(SI([C('a', i * step + j) for j in range(k)] + [C('b{}'.format(i), j) for j in range(k)] + [C('x', i % 3), C(i, 'a')]) for i in range(n))


def near_regular(n):
    """Tables with n columns and three rows of which one has another left, one left less, one left more or a left twice."""
    def row(i):
        return [C('c{}'.format(j), 10 * i + j) for j in range(n)]
    for k in sorted({0, n // 2, n - 1}):
        for i in (0, 2):
            base = [row(x) for x in range(3) if x != i]
            for odd in (row(i)[:k] + [C('other', 1)] + row(i)[k + 1:], row(i)[:k] + row(i)[k + 1:], row(i) + [C('other', 1)], row(i) + [C('c{}'.format(k), 'x')],
                        row(i)[:k] + [C('c{}'.format((k + 1) % n), 'x')] + row(i)[k + 1:]):
                yield SI(SI(r) for r in base + [odd])
    yield SI(SI(row(x)) for x in range(3))


def transposed(t):
    """The clan with lefts and rights exchanged."""
    return SI(SI(C(e[2], e[1]) for e in r[1]) for r in t[1])


def row_mclan(n, cols=2, start=0, mults=(1, 2, 3)):
    rows = sorted(row_clan(n, cols, start)[1], key=key)
    return ('m', frozenset((r, mults[i % len(mults)]) for i, r in enumerate(rows)))


def int_mset(n, start=0, mults=(1, 2, 3)):
    return ('m', frozenset((A(start + i), mults[i % len(mults)]) for i in range(n)))


# -- values of middle size: three to eight members of every shape; pairs of them meet in every way a shortcut may look at ----
def medium_rels():
    abcd, x, y = ['a', 'b', 'c', 'd'], S('x'), S('y')
    full = [(l, r) for l in 'abc' for r in 'abc']
    return uniq([
        RP(('a', 'a'), ('b', 'b'), ('c', 'c')), RP(*[(l, l) for l in abcd]),                        # identities
        RP(('a', 'b'), ('b', 'c'), ('c', 'a')), RP(('a', 'b'), ('b', 'c'), ('c', 'd'), ('d', 'a')),     # cycles
        RP(('a', 'b'), ('b', 'a'), ('c', 'd'), ('d', 'c')), RP(('a', 'b'), ('b', 'a'), ('c', 'c')),       # involutions
        RP(('a', 'b'), ('b', 'c'), ('c', 'd')), RP(('a', 'b'), ('b', 'c'), ('c', 'd'), ('d', 'e'), ('e', 'f')),
        RP(*[(l, r) for l in abcd for r in abcd if l < r]),                                         # strict order
        RP(*full), RP(*full[:-1]), RP(*full[1:]), RP(*(full[:4] + full[5:])),
        RP(('a', 'a'), ('a', 'b'), ('b', 'a'), ('b', 'b'), ('c', 'c'), ('c', 'd'), ('d', 'c'), ('d', 'd')),  # blocks
        RP(('a', 1), ('b', 2), ('c', 3)), RP(('a', 1), ('b', 2), ('c', 3), ('d', 4), ('e', 5)),          # bijections
        RP(('a', 1), ('b', 2), ('c', 9)), RP(('a', 2), ('b', 3), ('c', 1)), RP(('a', 1), ('b', 1), ('c', 1), ('d', 1)),
        RP(('e', 5), ('f', 6), ('g', 7), ('h', 8)), RP(('c', 3), ('d', 4), ('e', 5), ('f', 6)), RP(('c', 7), ('d', 4), ('e', 5)),
        RP(('p', 1), ('q', 2), ('r', 3)), RP(('a', 1), ('a', 2), ('a', 3), ('a', 4), ('b', 5)), RP(('a', 1), ('b', 2), ('b', 3), ('c', 3)),
        RP((1, 'a'), (2, 'b'), (3, 'c'), (5, 'e')), RP((1, 'a'), (True, 'b'), (1.0, 'c')), RP(('a', 1), ('b', True), ('c', 1.0)),
        RP(('x', 'a'), ('y', 'b'), ('z', 'c')), RP(('b', 'a'), ('c', 'b'), ('x', 'c'), ('a', 'x')),         # renamings
        RP(('a', x), ('b', y), ('c', EMPTY), ('d', C('a', 'b'))), RP((x, 'a'), (y, 'b'), (EMPTY, 'c'), ('d', x)),
        RP((x, x), (y, y), (x, y), (y, x)), RP((x, y), (y, x), (EMPTY, EMPTY)), RP(('a', x), ('a', y), ('b', x), ('b', EMPTY)),
    ])


def table(cols, *rows):
    return SI(SI(C(c, v) for c, v in zip(cols, r) if v is not None) for r in rows)


def medium_clans():
    x = S('x')
    # rows with the same lefts that share rows and differ in what they are (reflexive, symmetric, transitive, ...)
    ident, swap, const, rest = RP(('a', 'a'), ('b', 'b')), RP(('a', 'b'), ('b', 'a')), RP(('a', 'a'), ('b', 'a')), RP(('a', 2), ('b', 2))
    return uniq([
        table('a', [1], [2], [3]), table('ab', [1, 1], [1, 2], [2, 1], [2, 2]), table('abc', [1, 2, 3], [1, 2, 4], [2, 2, 3], [5, 6, 7]),
        table('abc', [1, 2, 3], [1, 2, None], [1, None, 3], [None, 2, 3]), table('ab', [1, 2], [3, None], [None, 4], [5, 6]),
        table('ab', [1, 2], [2, 1]), table('abcd', [1, 2, 3, 4], [2, 1, 4, 3], [3, 4, 1, 2], [4, 3, 2, 1]),          # right-regular too
        table('bc', [1, 7], [2, 8], [3, 9]), table('bc', [1, 7], [1, 8], [2, 7], [2, 9]), table('cd', [3, 1], [4, 2], [9, 9]),
        table('de', [1, 1], [2, 2], [3, 3]), table('d', ['p'], ['q'], ['r'], ['s']), table('ab', [1, 1], [2, 2], [3, 3], [4, 4], [5, 5]),
        SI([RP(('a', 1), ('a', 2)), RP(('a', 3), ('a', 4)), RP(('a', 5), ('b', 6))]), SI([RP(('a', 1), ('a', 2), ('b', 1)), RP(('b', 1), ('b', 2)), RP(('a', 1))]),
        SI([EMPTY, RP(('a', 1)), RP(('b', 2)), RP(('a', 1), ('b', 2))]), SI([RP(('a', 1)), RP(('b', 1)), RP(('c', 1)), RP(('d', 1))]),
        SI([RP(('x', 'a'), ('y', 'b')), RP(('x', 'b'), ('y', 'a')), RP(('z', 'c'))]), SI([RP(('a', 'a'), ('b', 'b')), RP(('a', 'b'), ('b', 'a')), RP(('c', 'c'))]),
        SI([RP(('a', 'b'), ('b', 'c'), ('a', 'c')), RP(('a', 'b'), ('b', 'a'), ('a', 'a'), ('b', 'b')), RP(('b', 'c'))]),
        SI([RP(('a', x), ('b', 1)), RP(('a', EMPTY), ('b', 2)), RP(('a', 1), ('b', 3))]), SI([RP((1, 'a')), RP((True, 'a')), RP((1.0, 'a'), (1, 'b'))]),
    ] + [SI(c) for c in ([ident, rest], [ident, swap], [ident, const], [swap, rest], [ident, swap, const], [const, RP(('a', 'b'), ('b', 'b'))])])


def counted(elems_, counts):
    return ('m', frozenset((e, counts[i % len(counts)]) for i, e in enumerate(sorted(elems_, key=key))))


COUNTS = ([1], [2, 1], [1, 3, 2], [7, 1, 100])


def medium_mclans():
    cs = medium_clans()
    return uniq([counted(c[1], COUNTS[i % 4]) for i, c in enumerate(cs)] + [counted(c[1], COUNTS[(i + 2) % 4]) for i, c in enumerate(cs[:6])] + [counted(c[1], COUNTS[0]) for c in cs[-6:]])


def medium_msets():
    abc = [A(v) for v in 'abcdef']
    mixed = [A(1), A(True), A(1.0), S('a'), EMPTY, C('a', 'b')]
    out = [counted(es, c) for es in (abc[:4], abc[:6], abc[2:6], mixed, mixed[2:], abc[:2] + mixed[:3]) for c in COUNTS + ([5], [2, 3], [4, 9, 1, 1, 6])]
    return uniq(out)


def medium_sets():
    abc = [A(v) for v in 'abcdefgh']
    x = S('x')
    mixed = [A(1), A(True), A(1.0), S('a'), EMPTY, C('a', 'b'), M({'a': 2})]
    return uniq([SI(abc[:k]) for k in (3, 4, 5, 8)] + [SI(abc[2:6]), SI(abc[4:]), SI(abc[1::2]), SI(mixed), SI(mixed[:3]), SI(mixed[2:]), SI(mixed[:2] + abc[:2]),
                 SI([S('a', 'b'), S('b', 'c'), S('c', 'd'), x]), SI([S('a'), S('b'), S('a', 'b'), EMPTY]), SI([x, S(x), S(S(x)), A('x')]),
                 SI([C('a', 'b'), C('b', 'a'), C('c', 'd'), C('d', 'c'), A('a')]), SI([S(x), S(x, S('y')), EMPTY, S(S('y'))])])


def medium_all():
    return uniq(medium_rels() + medium_clans() + medium_mclans() + medium_msets() + medium_sets())
