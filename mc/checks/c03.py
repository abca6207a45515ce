"""C03: couplet and relation algebra."""
import itertools

import algebraixlib.mathobjects as mo
import algebraixlib.undef as ud
from algebraixlib.algebras import couplets, relations

from .. import drive, opcheck, ops, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S

PROPERTY = 'C03'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all pairs of couplets over 3 atoms and 6 mixed ones; all 16 relations over 2 atoms (plain and '
             'with colliding atoms) in all pairs; all 512 relations over 3 atoms (unary), pairs of those with '
             '<=2 couplets; depth-2 histories over the 16 relations; all pairs of 35 relations of 3 to 9 couplets of every shape; sizes up to 300',
    'thorough': 'pairs of the 130 relations over 3 atoms with <=3 couplets, histories over 64 relations',
}
CPL = ops.ops_of('couplets')
REL = ops.ops_of('relations')
REL1 = [op for op in REL if op.kinds == ('rel',)]
REL2 = [op for op in REL if op.kinds == ('rel', 'rel')]
RELL = [op for op in REL if op.kinds == ('rel', 'left')]
RELC = [op for op in REL if op.kinds == ('rel', 'couplet')]
A3 = [A(1), A(2), A(3)]


def cpls(tier):
    return U.uniq(U.couplets_over([A('a'), A('b'), A(1), A(True)]) +
                  [C(C('a', 'b'), 'a'), C('a', C('a', 'b')), C(S('a'), S('b')), C(S('b'), S('a')),
                   C(EMPTY, EMPTY), C(M({'a': 2}), 'a'), C(1.0, True), C(C('a', 'b'), C('a', 'b'))])


def rels_small(tier):
    mixed = U.rels2(A(1), A(True))
    nested = [S(C(S('a'), 'b')), S(C(S('a'), S('a'))), S(C(C('a', 'b'), 'b')), S(C('a', EMPTY), C(EMPTY, 'a')),
              RP(('a', 1), ('a', True)), RP((1, 'a'), (True, 'a'))]
    return U.uniq(U.rels2() + mixed + nested)


def rels3k(tier):
    return list(U.subsets(U.couplets_over(A3), 0, 2 if tier == 'quick' else 3))


def all_rels(tier):
    extra = list(U.subsets(U.couplets_over([A(1), A(True), A(1.0)]), 0, 2))
    return U.uniq(U.rels3() + extra + rels_small(tier))


def lefts_(tier):
    return [A(1), A(2), A('a'), A(True), A(1.0), A('b'), C('a', 'b'), S('a'), EMPTY, A('zz')]


def rel_left(tier):
    rs = U.uniq(rels_small(tier) + list(U.subsets(U.couplets_over(A3), 0, 3)))
    return itertools.product(rs, lefts_(tier))


def rel_cpl(tier):
    rs = U.uniq(rels_small(tier) + list(U.subsets(U.couplets_over(A3), 0, 2)))
    cs = U.uniq(U.couplets_over(A3)[:4] + cpls(tier))
    return itertools.product(rs, cs)


def scaled(tier):
    for n in U.SIZES + (U.SIZES_XL[:6] if tier == 'thorough' else []):
        ch, fu, fa = U.chain_rel(n), U.func_rel(n), U.fan_rel(min(n, 130))
        tfu = ops.r_transpose(fu)
        yield (ch, ch)
        yield (U.chain_rel(n, 1), ch)
        yield (fu, fu)
        yield (fu, U.func_rel(n, 0, 7777))                    # same lefts, other rights
        yield (fu, U.func_rel(max(n - 1, 0)))
        yield (tfu, fu)
        yield (fu, tfu)
        yield (U.func_rel(n), U.func_rel(n, n, 1000 + n))     # disjoint
        yield (U.func_rel(n), U.func_rel(n, n - 1, 1000 + n)) # one common left
        yield (fa, fu)
        ren = ('s', frozenset(C('new{}'.format(i), 'k{}'.format(i)) for i in range(0, n, 2)))
        yield (fu, ren)
        sw = ('s', frozenset(C('k{}'.format(i), 'k{}'.format(i + 1)) for i in range(0, max(n - 1, 0), 2)))
        yield (fu, sw)
        if 0 < n <= 12:
            full = ('s', frozenset(U.couplets_over([A(i) for i in range(n)])))
            yield (full, full)
            yield (full, ch)


def scaled1(tier):
    for n in U.SIZES:
        for r in (U.chain_rel(n), U.func_rel(n), U.fan_rel(n), ops.r_transpose(U.fan_rel(n))):
            yield (r,)
        if n <= 33:
            k = min(n, 12)
            full = U.couplets_over([A(i) for i in range(k)])
            yield (('s', frozenset(full)),)
            for drop in (0, len(full) // 2, len(full) - 1):
                if full:
                    yield (('s', frozenset(full[:drop] + full[drop + 1:])),)
            # equivalence relation with blocks, and one that lacks a single couplet
            blocks = [('c', A(i), A(j)) for i in range(n) for j in range(n) if i // 3 == j // 3]
            yield (('s', frozenset(blocks)),)
            if blocks:
                yield (('s', frozenset(blocks[:-2] + blocks[-1:])),)
                yield (('s', frozenset(blocks[1:])),)
            order = [('c', A(i), A(j)) for i in range(n) for j in range(i, n)]
            yield (('s', frozenset(order)),)
        yield (ops.s_union(U.func_rel(n), RP(('k0', 'x'))),)
        yield (ops.s_union(U.func_rel(n), RP(('x', 1000))),)
        yield (ops.s_union(U.func_rel(n), RP(('k{}'.format(n - 1), 'x'))),)


def scaled_left(tier):
    for n in U.SIZES:
        for r in (U.func_rel(n), U.fan_rel(n, 'k0'), ops.s_union(U.func_rel(n), RP(('k0', 'x')))):
            for l in (A('k0'), A('k{}'.format(max(n - 1, 0))), A('k{}'.format(n)), A(1000), A(1000 + n - 1)):
                yield (r, l)


# Constructors of relations, and arguments given as plain Python values.
def gen_ctor(tier):
    vals = ['a', 1, True]
    for k in range(0, 4):
        for ls in itertools.combinations(['a', 'b', 1], k):
            for rs in itertools.product(vals, repeat=k):
                yield ('from_dict', tuple(zip(ls, rs)))
                # a plain value and the atom of it are different keys, but the same left
                yield ('from_twins', tuple(zip(ls, rs)))
    for k in range(0, 4):
        for ls in itertools.product(['a', 1, True, 'U'], repeat=k):
            yield ('diag', ls)
    for n in U.SIZES:
        yield ('from_dict', tuple((i, i % 5) for i in range(n)))
        yield ('diag', tuple(range(n)))
    for r in rels_small(tier):
        for l in ('a', 'b', 1, True, 'zz'):
            yield ('raw', r, l)


def run_ctor(case, ctx):
    kind = case[0]
    if kind == 'from_dict':
        d = dict(case[1])
        res = relations.from_dict(d)
        want = ('s', frozenset(C(k, v) for k, v in case[1]))
        drive.judge(ctx, 'relations.from_dict({})'.format(d), res, want)
        if list(d.items()) != list(dict(case[1]).items()):
            ctx.fail('from_dict changed its argument')
    elif kind == 'from_twins':
        res = want = None
        for d, pairs in drive.twin_dicts(case[1], ('a', 1, 'z')):
            res, want = relations.from_dict(d), RP(*pairs)
            drive.judge(ctx, 'relations.from_dict({})'.format(d), res, want)
    elif kind == 'diag':
        args = [ud.Undef() if x == 'U' else x for x in case[1]]
        want = T.UNDEF if 'U' in case[1] else ops.r_diag(*[A(x) for x in case[1]])
        res = relations.diag(*args)
        drive.judge(ctx, 'relations.diag{}'.format(case[1]), res, want)
        args = [ud.Undef() if x == 'U' else mo.Atom(x) for x in case[1]]
        drive.judge(ctx, 'relations.diag{} unchecked'.format(case[1]),
                    relations.diag(*args, _checked=False), want)
    else:
        _, r, l = case
        for op in RELL:
            drive.judge(ctx, '{}({}, {!r})'.format(op.id, T.show(r), l), op.fn(T.mk(r), l), op.ref(r, A(l)))
        res = None
    if isinstance(res, mo.MathObject):
        ctx.state((want, T.flag_vector(res)))
        for name in ('functional', 'right_functional', 'reflexive', 'symmetric', 'transitive'):
            ctx.step()
            got = getattr(relations, 'is_' + name)(res)
            if got is not T.facts(want)[name]:
                ctx.fail('{} of {}{} is {}'.format(name, kind, case[1], got))
    ctx.trace()


def hist_rels(tier):
    return U.rels2() if tier == 'quick' else U.uniq(U.rels2() + rels3k('quick'))


FAMILIES = [
    opcheck.product_family('couplets', CPL, {'couplet': cpls}, modes=(None, False)),
    opcheck.product_family('relations-2', REL2, {'rel': rels_small}, modes=(None, False), block=8),
    opcheck.product_family('relations-3', REL2, {'rel': rels3k}, orders=(0,), block=16,
                           preps=[('shallow', 'shallow')]),
    opcheck.product_family('relations-unary', REL1, {'rel': all_rels}, modes=(None, False)),
    opcheck.pairs_family('relation-left', RELL, rel_left, modes=(None, False), block=16,
                         preps=[('shallow', 'fresh'), ('rebuilt', 'fresh')]),
    opcheck.pairs_family('functional-add', RELC, rel_cpl, block=16,
                         preps=[('shallow', 'fresh'), ('rebuilt', 'shallow')]),
    opcheck.pairs_family('scaled', REL2, scaled, preps=[('shallow', 'shallow')]),
    opcheck.pairs_family('scaled-unary', REL1, scaled1, orders=(0, 1), preps=[('shallow',)]),
    opcheck.pairs_family('scaled-left', RELL, scaled_left, preps=[('shallow', 'fresh')]),
    Family('constructors', gen_ctor, run_ctor, block=4),
    opcheck.history_family('histories', [op for op in REL1 + REL2 if not op.name.startswith('is_')],
                           REL1 + REL2 + RELL, {'rel': hist_rels},
                           lambda tier: [RP(('a', 'b')), RP(('a', 'a'), ('b', 'a')), A('a')]),
    opcheck.product_family('medium', REL2, {'rel': lambda tier: U.medium_rels()}, orders=(0, 1), block=8, preps=[('warm', 'warm'), ('rebuilt', 'shallow'), ('fresh', 'q:func')]),
    opcheck.product_family('medium-unary', REL1, {'rel': lambda tier: U.medium_rels()}, preps=[('warm',), ('rebuilt',), ('shallow',)]),
    opcheck.product_family('medium-left', RELL, {'rel': lambda tier: U.medium_rels(), 'left': lefts_}, block=8, preps=[('warm', 'fresh'), ('rebuilt', 'fresh'), ('q:func', 'fresh')]),
    opcheck.product_family('medium-add', RELC, {'rel': lambda tier: U.medium_rels(), 'couplet': cpls}, block=8, preps=[('warm', 'fresh')]),
]
