"""C16: the JSON encoding of mathematical objects is lossless."""
import io
import itertools
import json

import algebraixlib.mathobjects as mo
from algebraixlib.import_export import mojson

from .. import drive, history as H, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, MI, RP, S, SI

PROPERTY = 'C16'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all pairs of 40 values of which many are equal in Python, encoded one after the other; 52 atom values of all supported types (incl. nested tuples, bytes, ranges, complex, marker-like and non-ASCII strings) in 9 '
             'positions; all pairs of them in sets and couplets; ~330 structured values fresh, queried, reordered, and inside lists and '
             'dictionaries; all sets and multisets with <= 3 of 8 elements; nesting up to 40, sizes up to 300; ~8800 dictionaries with the '
             'keys of the encoding',
    'thorough': 'all triples of atoms in sets, all sets and multisets with <= 4 of 10 elements, sizes up to 5000',
}
ATOMS = ['', 'a', 'é', '日本', '"', '\\', '\n', '\x00', '\u2028', '__cls__', '__val__', 'Atom', 'builtin.bytes', '{"__cls__": 1}', 'null', '\ud800',
         0, 1, -1, 10 ** 30, 2 ** 53 + 1, True, False, None, 1.0, 0.1, -2.5, 1e308, 5e-324, float('inf'), float('-inf'), 1e16, 123456789.123456789,
         b'', b'\x00\xff', b'abc', 1j, 1 + 2j, -0.5 - 3e100j, complex(0.1 + 0.2, -1 / 3), complex(1e-320, 123456789.123456789), range(0, 3), range(5, -5, -2), range(10 ** 20, 10 ** 20 + 5), range(0, 10, 3), range(5, 3, -5), range(7, 7),
        
         (), (1,), (1, 'a', None), ((1, 2), ('a',), ()), (b'x', 1j, (True, (1.0,))), (range(0, 2), ('__cls__', '__val__')), frozenset([1])]
ATOMS_T = [('a', type(v).__name__, v) for v in ATOMS]


def sub_types(v):
    """The exact type structure of an atom's value."""
    if isinstance(v, tuple):
        return ('tuple',) + tuple(sub_types(x) for x in v)
    if isinstance(v, frozenset):
        return ('frozenset',) + tuple(sorted(map(repr, v)))
    return (type(v).__name__, repr(v))


def same(ctx, obj, t, back, how):
    ctx.step()
    try:
        got = T.term(back)
    except T.Malformed as e:
        ctx.fail('{}: decoding gives a malformed object: {}'.format(how(), e))
    if got != t or not back == obj or hash(back) != hash(obj):
        ctx.fail('{}: {} became {}'.format(how(), T.show(t), T.show(got)))
    if atom_types(t) != atom_types(got):
        ctx.fail('{}: the types inside {} became {}'.format(how(), T.show(t), T.show(got)))
    bad = T.deep_unsound(back, got)
    if bad:
        ctx.fail('{}: {}'.format(how(), bad[0]))


def atom_types(t):
    out = []

    def walk(x):
        if x[0] == 'a':
            out.append(sub_types(x[2]))
        elif x[0] == 'c':
            walk(x[1])
            walk(x[2])
        elif x[0] == 's':
            for e in x[1]:
                walk(e)
        else:
            for e, _ in x[1]:
                walk(e)
    walk(t)
    return sorted(map(repr, out))


def dumps(x, **kw):
    return json.dumps(x, cls=mojson.ExportJson, **kw)


def loads(s):
    return json.loads(s, cls=mojson.ImportJson)


def check(ctx, t, preps=('fresh', 'warm'), orders=(0, 1)):
    for prep, order in itertools.product(preps, orders):
        obj = drive.PREPS[prep](T.mk(t, order))
        text = dumps(obj)
        how = lambda: 'round trip ({}) through {!r}'.format(prep, text[:400])
        same(ctx, obj, t, loads(text), how)
        same(ctx, obj, t, loads(text), how)
        if prep == 'fresh' and order == 0:
            same(ctx, obj, t, loads(dumps(obj, ensure_ascii=False)), how)
            same(ctx, obj, t, loads(dumps(obj, indent=2)), how)
            same(ctx, obj, t, json.loads(text, object_hook=mojson.object_hook_f), how)
            f = io.StringIO()
            json.dump(obj, f, cls=mojson.ExportJson)
            f.seek(0)
            same(ctx, obj, t, json.load(f, cls=mojson.ImportJson), how)
            try:
                enc = json.dumps(mojson.encode(obj))
            except TypeError as e:
                ctx.fail('encode({}) is not plain JSON data: {}'.format(T.show(t), e))
            same(ctx, obj, t, json.loads(enc, cls=mojson.ImportJson), how)
            # inside Python containers
            back = loads(dumps([obj, {'k': obj, 'l': [obj, 1, 'x', None]}, 'y']))
            ctx.step()
            if not (isinstance(back, list) and len(back) == 3 and back[2] == 'y' and list(back[1]) == ['k', 'l'] and
                    back[1]['l'][1:] == [1, 'x', None]):
                ctx.fail('containers around {} became {!r}'.format(T.show(t), back))
            for b in (back[0], back[1]['k'], back[1]['l'][0]):
                same(ctx, obj, t, b, how)
        H.check_object(ctx, obj, t, lambda: 'operand of the encoding')
    ctx.state(t)
    ctx.outcome(t[0])


def gen_atoms(tier):
    for a in ATOMS_T:
        for w in range(9):
            yield (a, w)


def run_atoms(case, ctx):
    a, w = case
    t = [lambda: a, lambda: ('c', a, A('x')), lambda: ('c', A('x'), a), lambda: ('c', a, a), lambda: SI([a]), lambda: SI([a, A('zz'), S('q')]),
         lambda: MI({a: 3}), lambda: MI({a: 1, A('zz'): 2, SI([a]): 10 ** 20}), lambda: SI([SI([('c', A('k'), a)])])][w]()
    check(ctx, t, preps=('fresh', 'warm') if not (a[1] == 'frozenset' or a[2] == ()) else ('fresh',))
    ctx.trace()


def gen_pairs(tier):
    ok = [a for a in ATOMS_T]
    for a, b in itertools.combinations(ok, 2):
        yield (SI([a, b]),)
        yield (('c', a, b),)
    for a, b in itertools.combinations(ok[::3], 2):
        yield (MI({a: 1, b: 2}),)
    if tier != 'quick':
        for c in itertools.combinations(ok, 3):
            yield (SI(c),)


def run_pairs(case, ctx):
    t, = case
    check(ctx, t, preps=('fresh',))
    ctx.trace()


# Multiplicities that 16, 32, 53 and 64 bits or a float cannot hold.
BIG = [255, 256, 65536, 2 ** 31, 2 ** 32 + 1, 2 ** 53 + 1, 2 ** 63, 2 ** 64 + 1, 10 ** 20 + 1, 10 ** 40 + 1]


def gen_values(tier):
    for t in U.structured():
        yield (t,)
    for t in U.rels2() + U.clans2(1):
        yield (t,)
    for t in U.medium_all():
        yield (t,)
    el = U.generic_elems()[:8 if tier == 'quick' else 10]
    k = 3 if tier == 'quick' else 4
    for t in U.subsets(el, 0, k):
        yield (t,)
    for t in U.multisubsets(el, 2, 2):
        yield (t,)
    for n in BIG:
        yield (M({'a': n}),)
        yield (M({'a': n, 1: 1, 1.0: n - 1}),)
        yield (S(M({C('k', 1): n}), 'b'),)
    for n in range(1, 41):
        t = A('a')
        for i in range(n):
            t = [S(t), C(t, 1), M({t: 2}), C(1, t), S(t, 'b')][i % 5]
        yield (t,)


def run_values(case, ctx):
    t, = case
    check(ctx, t, preps=('fresh', 'warm', 'rebuilt') if t[0] in 'sm' else ('fresh', 'warm'))
    ctx.trace()


def gen_scaled(tier):
    for n in U.SIZES + (U.SIZES_XL if tier != 'quick' else [1000]):
        yield (n,)


def run_scaled(case, ctx):
    n, = case
    for t in (U.int_set(n), U.int_mset(n), U.row_clan(n), U.row_mclan(n), U.func_rel(n)):
        check(ctx, t, preps=('fresh',))
    check(ctx, A('x' * n))
    check(ctx, A(tuple(range(n))))
    check(ctx, A(bytes(i % 256 for i in range(n))))
    ctx.trace()


# Values that are not mathematical objects: the containers the module documents.
PLAIN = [b'\x01\x02', 1 + 1j, frozenset(), frozenset([1, 'a']), range(3), [1, [2, 'x']], {'a': [1, None]}, 'str', 1, 1.5, None, True, {}, [],
         {'__cls__': 'other'}, {'__cls__': 'x', '__val__': 1}]


# All dictionaries over these keys and values, except those that have exactly the form of an encoded value.
KEYS = ['__cls__', '__val__', 'x', '']
VALS = ['Atom', 'Set', 'other', 1, None, [], {}]
PLAIN += [dict(zip(ks, vs)) for n in (1, 2, 3) for ks in itertools.permutations(KEYS, n) for vs in itertools.product(VALS, repeat=n)
          if not (set(ks) == {'__cls__', '__val__'})]


def gen_plain(tier):
    for i in range(len(PLAIN)):
        yield (i,)


def run_plain(case, ctx):
    v = PLAIN[case[0]]
    ctx.step()
    back = loads(dumps(v))
    if back != v or type(back) is not type(v):
        ctx.fail('{!r} became {!r}'.format(v, back))
    for obj in ([v, T.mk(S(1))], {'k': v, 'o': T.mk(C(1, 2))}):
        ctx.step()
        back = loads(dumps(obj))
        if repr(back) != repr(obj):
            ctx.fail('{!r} became {!r}'.format(obj, back))
    ctx.state(case)
    ctx.outcome(type(v).__name__)
    ctx.trace()


# Values that are equal in Python (1, True, 1.0, also inside of tuples), encoded one after the other -----------------
TWINS = [v for w in (lambda x: x, lambda x: (x,), lambda x: (x, 'a'), lambda x: ((x,),), lambda x: ('a', (x, (x, None))), lambda x: frozenset([x]),
                     lambda x: (frozenset([x]),), lambda x: (range(3), x))
         for v in (w(1), w(True), w(1.0), w(1 + 0j))] + [0, False, 0.0, -0.0, (0,), (False,), (-0.0,), (0.0,)]


def gen_twins(tier):
    for i, j in itertools.product(range(len(TWINS)), repeat=2):
        yield (i, j)


def run_twins(case, ctx):
    v, w = TWINS[case[0]], TWINS[case[1]]
    for make, value in ((mo.Atom, lambda o: o.value), (lambda x: mo.Couplet('k', mo.Atom(x)), lambda o: o.right.value),
                        (lambda x: mo.Set([mo.Atom(x)]), lambda o: next(iter(o)).value), (lambda x: mo.Multiset({mo.Atom(x): 2}), lambda o: next(iter(o)).value)):
        ctx.step(3)
        one, two = loads(dumps(make(v))), loads(dumps(make(w)))
        both = loads(dumps([make(v), make(w), make(v)]))
        for got, exp in [(one, v), (two, w)] + list(zip(both, (v, w, v))):
            if sub_types(value(got)) != sub_types(exp):
                ctx.fail('after encoding {!r} and {!r}: {!r} became {!r}'.format(v, w, make(exp), got))
    ctx.state(case)
    ctx.outcome(type(v).__name__)
    ctx.trace()


FAMILIES = [
    Family('twins', gen_twins, run_twins, block=16),
    Family('atoms', gen_atoms, run_atoms, block=4),
    Family('atom-pairs', gen_pairs, run_pairs, block=16),
    Family('values', gen_values, run_values, block=2),
    Family('scaled', gen_scaled, run_scaled),
    Family('plain-python-values', gen_plain, run_plain, block=16),
]
