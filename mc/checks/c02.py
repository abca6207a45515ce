"""C02: the set algebra computes exactly what elementary set theory defines."""
import itertools

import algebraixlib.mathobjects as mo
from algebraixlib.algebras import sets

from .. import drive, opcheck, ops, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S

PROPERTY = 'C02'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all pairs of the 64 subsets of 6 mixed elements and of the 137 clans with <=2 relations '
             'over 2 atoms, 6 combinations of operand preparation, both insertion orders; all pairs of 36 sets of middle size (3 to 8 members, every shape); all sets of '
             '<=3 (of 8) subsets of 3 elements for the big operators; sizes up to 300',
    'thorough': 'all pairs of the 256 subsets of 8 mixed elements and of the 697 clans with <=3 relations',
}
BINARY = [op for op in ops.ops_of('sets') if op.kinds == ('set', 'set')]
UNARY = [op for op in ops.ops_of('sets') if op.kinds == ('set',)]

ELEMS = [A('a'), A(1), A(True), C('a', 'b'), EMPTY, S('a'), M({'a': 2}), S(C('a', 'b')), A(1.0)]
POWER = [op for op in UNARY if op.name == 'power_set']
UNARY_LIN = [op for op in UNARY if op.name != 'power_set']


def small_sets(tier):
    return list(U.subsets(ELEMS[:6] if tier == 'quick' else ELEMS[:8]))


def clan_sets(tier):
    return U.clans2(2 if tier == 'quick' else 3)


def sets_of_sets(tier):
    inner = list(U.subsets([A(1), A(True), C('a', 'b')]))
    base = list(U.subsets(inner, 0, 3 if tier == 'quick' else 8))
    bad = [S(x, *c) for x in (A('z'), EMPTYM, C('a', 'b')) for c in itertools.combinations(inner, 1)]
    rels = list(U.subsets(U.rels2()[:12], 0, 2))
    clans = [S(*c) for k in (1, 2) for c in itertools.combinations(U.clans2(1), k)]
    return U.uniq(base + bad + rels + clans)


def unary_sets(tier):
    return U.uniq(small_sets(tier) + [t for t in U.structured() if t[0] == 's'] + clan_sets('quick'))


def scaled_pairs(tier):
    sizes = U.SIZES + (U.SIZES_XL if tier == 'thorough' else [1000])
    for n in sizes:
        a = U.int_set(n)
        yield (a, U.int_set(n))
        yield (a, U.int_set(max(n - 1, 0)))
        yield (U.int_set(max(n - 1, 0)), a)
        yield (a, U.int_set(n, n // 2))
        yield (a, U.int_set(n, 100000))
        yield (a, S(0, 'x'))
        yield (S(n - 1), a)
        yield (a, EMPTY)
        yield (EMPTY, a)
        if n <= 130:
            yield (U.chain_rel(n), U.chain_rel(n, n // 2))
            yield (U.func_rel(n), U.func_rel(n, n - 1, 5000))
            yield (U.row_clan(n), U.row_clan(n, start=n // 2))
            yield (U.row_clan(n), U.row_clan(max(n - 1, 0)))


def scaled_power(tier):
    for n in U.SIZES[:11]:
        yield (U.int_set(n),)
        yield (U.func_rel(n),)


def scaled_unary(tier):
    for n in U.SIZES:
        yield (U.int_set(n),)
        yield (('s', frozenset(U.int_set(3, i) for i in range(n))),)
        yield (('s', frozenset(U.int_set(n, i) for i in range(min(n, 6)))),)
        yield (U.func_rel(n),)


def run_restrict(case, ctx):
    t, sel = case
    keep = frozenset(x for i, x in enumerate(T.elems(t)) if sel >> i & 1)
    want = ('s', keep)
    for prep in ('fresh', 'warm', 'shallow', 'rebuilt'):
        calls = []
        obj = opcheck.build(t, prep, 0)

        def selector(e):
            te = T.term(e)
            calls.append(te)
            return te in keep
        res = sets.restrict(obj, selector)
        drive.judge(ctx, 'restrict({}, {})'.format(T.show(t), T.show(want)), res, want)
        if set(calls) != set(t[1]):
            ctx.fail('restrict({}): selector was asked about {} instead of every element'.format(
                T.show(t), [T.show(c) for c in calls]))
        # any truthy or falsy value selects
        res = sets.restrict(obj, lambda e: [1] if T.term(e) in keep else '')
        drive.judge(ctx, 'restrict({}) truthy'.format(T.show(t)), res, want)
        ctx.state((t, T.flag_vector(obj)))
        ctx.state((want, T.flag_vector(res)))
    ctx.trace()


def gen_restrict(tier):
    for t in U.uniq(small_sets('quick')[:40] + U.rels2() + U.clans2(2)[:137] + U.clans2(3)[200:260]):
        for sel in range(1 << len(t[1])):
            yield (t, sel)


def run_some(case, ctx):
    t, order = case
    res = sets.some(T.mk(t, order))
    ctx.step()
    got = drive.read(res)
    if not t[1]:
        if got is not T.UNDEF:
            ctx.fail('some({}) is {}'.format(T.show(t), drive.shown(got)))
    elif got not in t[1]:
        ctx.fail('some({}) is {}, no element of it'.format(T.show(t), drive.shown(got)))
    ctx.state(t)
    ctx.trace()


def gen_some(tier):
    for t in unary_sets(tier):
        for order in (0, 1):
            yield (t, order)


# Three-step histories: op2(op1(a, b), c) with every intermediate result reused, on the real objects.
def run_chain(case, ctx):
    op1, op2, a, b, c = case
    o1, o2 = ops.BY_ID[op1], ops.BY_ID[op2]
    for prep in ('fresh', 'warm'):
        x, y, z = (opcheck.build(t, prep) for t in (a, b, c))
        w1 = o1.ref(a, b)
        r1 = o1.fn(x, y)
        drive.judge(ctx, op1, r1, w1)
        if w1 is T.UNDEF:
            return
        for left in (True, False):
            r2 = o2.fn(r1, z) if left else o2.fn(z, r1)
            w2 = o2.ref(w1, c) if left else o2.ref(c, w1)
            drive.judge(ctx, '{}({}({}, {}), {}) left={} prep={}'.format(
                op2, op1, T.show(a), T.show(b), T.show(c), left, prep), r2, w2)
        ctx.state((w1, T.flag_vector(r1)))
        # the operands are still what they were
        for o, t in ((x, a), (y, b), (z, c)):
            if T.term(o) != t:
                ctx.fail('{} then {} changed an operand: {} became {}'.format(op1, op2, T.show(t), o))
    ctx.trace()


def gen_chain(tier):
    names = [op.id for op in BINARY if not op.name.startswith('is_')]
    vals = list(U.subsets([A(1), A(True), C('a', 'b')])) + U.rels2()[1:9:2] + U.clans2(1)[1:6]
    vals = U.uniq(vals) if tier == 'thorough' else U.uniq(vals)[:13]
    for o1 in names:
        for o2 in names:
            for abc in itertools.product(vals, repeat=3):
                yield (o1, o2) + abc


FAMILIES = [
    opcheck.product_family('binary-mixed', BINARY, {'set': small_sets}, modes=(None, False), block=64),
    opcheck.product_family('binary-clans', BINARY, {'set': clan_sets}, orders=(0,), block=64,
                           preps=[('shallow', 'shallow'), ('rebuilt', 'fresh')]),
    opcheck.product_family('unary', UNARY, {'set': unary_sets}, modes=(None, False)),
    opcheck.product_family('unary-of-sets', UNARY_LIN,
                           {'set': sets_of_sets}, preps=[('shallow',), ('rebuilt',)]),
    opcheck.pairs_family('scaled', BINARY, scaled_pairs, preps=[('shallow', 'shallow'), ('rebuilt', 'shallow')]),
    opcheck.pairs_family('scaled-power-set', POWER, scaled_power, preps=[('shallow',)]),
    opcheck.pairs_family('scaled-unary', UNARY_LIN, scaled_unary, preps=[('shallow',), ('rebuilt',)]),
    Family('restrict', gen_restrict, run_restrict),
    Family('some', gen_some, run_some, block=16),
    Family('histories', gen_chain, run_chain, block=64),
    opcheck.product_family('medium', BINARY, {'set': lambda tier: U.medium_sets() + U.medium_rels()[::3] + U.medium_clans()[::3]}, orders=(0, 1), block=8, preps=[('warm', 'warm'), ('rebuilt', 'shallow'), ('fresh', 'q:func')]),
    opcheck.product_family('medium-unary', UNARY, {'set': lambda tier: U.medium_sets() + U.medium_rels() + U.medium_clans()}, preps=[('warm',), ('rebuilt',), ('shallow',)]),
]
