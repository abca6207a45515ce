"""C05: multiset algebra."""
import itertools

import algebraixlib.mathobjects as mo
from algebraixlib.algebras import multisets

from .. import drive, opcheck, ops, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S

PROPERTY = 'C05'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all pairs of multisets with <=3 of 5 mixed elements and multiplicities <=2 (plus <=2 elements with '
             'multiplicities <=4), all pairs of small multiclans, all sets of <=3 small multisets for the big '
             'operators, depth-2 histories, all pairs of 49 multisets of 4 to 6 elements with multiplicities <= 100, sizes up to 300 and multiplicities up to 10**6',
    'thorough': 'multiplicities <=3 with 3 elements, 4 elements',
}
MS = ops.ops_of('multisets')
MS1 = [op for op in MS if op.kinds == ('mset',)]
MS2 = [op for op in MS if op.kinds == ('mset', 'mset')]
MSB = [op for op in MS if op.kinds == ('set',)]
ELEMS = [A('a'), A(1), A(True), S('a'), C('a', 'b'), M({'a': 2}), EMPTY]


def msets(tier):
    if tier == 'quick':
        return U.uniq(list(U.multisubsets(ELEMS[:5], 3, 2)) + list(U.multisubsets(ELEMS[:2], 2, 4)))
    return U.uniq(list(U.multisubsets(ELEMS[:6], 3, 3)) + list(U.multisubsets(ELEMS[:2], 2, 6)))


def mclans(tier):
    s = U.sharp_rels()
    return list(U.multisubsets([s[0], s[1], s[2], s[5], s[8]], 2, 2 if tier == 'quick' else 3))


def sets_of_msets(tier):
    small = list(U.multisubsets([A('a'), A(1)], 2, 2))
    out = list(U.subsets(small, 1, 3)) + [S(x, EMPTYM) for x in (A('a'), EMPTY, C('a', 'b'))]
    out += [S(M({'a': 2}), x) for x in (A('a'), EMPTY, S('a'))]
    out += list(U.subsets(mclans('quick')[:16], 1, 2))
    out += [('s', frozenset(U.int_mset(k, i) for i in range(n))) for n, k in
            ((5, 3), (9, 4), (17, 8), (33, 5), (70, 3), (130, 2))]
    return U.uniq(out)


def all_msets(tier):
    return U.uniq(msets('quick') + mclans(tier) + [t for t in U.structured() if t[0] == 'm'] +
                  [M({'a': n}) for n in (1, 2, 3, 10, 100, 10 ** 6)])


def scaled(tier):
    for n in U.SIZES + ([1000] if tier == 'quick' else U.SIZES_XL):
        a = U.int_mset(n)
        yield (a, U.int_mset(n))
        yield (a, U.int_mset(n, 0, (2, 2, 2)))
        yield (a, U.int_mset(n, n // 2, (3, 1)))
        yield (a, U.int_mset(max(n - 1, 0)))
        yield (U.int_mset(max(n - 1, 0)), a)
        yield (U.int_mset(n, 0, (1,)), U.int_mset(n, 0, (2,)))
        yield (a, EMPTYM)
        yield (EMPTYM, a)
        yield (a, M({0: 5, n - 1: 1}))
        yield (M({n - 1: 1}), a)
        yield (M({'x': n, 'y': 1}), M({'x': n // 2 + 1}))
        yield (M({'x': n}), M({'x': n}))
        yield (M({'x': n}), M({'x': n + 1, 'z': 1}))
        yield (U.row_mclan(min(n, 40)), U.row_mclan(min(n, 40), start=n // 2, mults=(2, 1)))


def scaled1(tier):
    for n in U.SIZES:
        yield (U.int_mset(n),)
        yield (U.int_mset(n, 0, (1,)),)
        yield (U.row_mclan(n),)


def gen_some(tier):
    for t in all_msets(tier):
        for order in (0, 1):
            yield (t, order)


def run_some(case, ctx):
    t, order = case
    got = drive.read(multisets.some(T.mk(t, order)))
    ctx.step()
    if (not t[1] and got is not T.UNDEF) or (t[1] and got not in dict(t[1])):
        ctx.fail('some({}) is {}'.format(T.show(t), drive.shown(got)))
    ctx.state(t)
    ctx.trace()


def hist_msets(tier):
    s = U.sharp_rels()
    base = [EMPTYM, M({'a': 1}), M({'a': 3}), M({'a': 2, 1: 1}), M({1: 2, True: 1}), M({s[1]: 2}), M({s[1]: 1, s[8]: 3}),
            M({s[5]: 1, s[6]: 2}), M({EMPTY: 2}), M({s[0]: 1, s[1]: 1}), M({S('a'): 2}), M({C('a', 'b'): 2})]
    return base if tier == 'quick' else U.uniq(base + list(U.multisubsets(ELEMS[:3], 2, 2)))


FAMILIES = [
    opcheck.product_family('pairs', MS2, {'mset': msets}, modes=(None, False), orders=(0, 1), block=32,
                           preps=[('shallow', 'fresh'), ('rebuilt', 'shallow')]),
    opcheck.product_family('pairs-multiclans', MS2, {'mset': mclans}, orders=(0,), block=16),
    opcheck.product_family('unary', MS1, {'mset': all_msets}, modes=(None, False), block=2),
    opcheck.product_family('big', MSB, {'set': sets_of_msets}, modes=(None, False), block=8,
                           preps=[('shallow',), ('rebuilt',)]),
    opcheck.pairs_family('scaled', MS2, scaled, preps=[('shallow', 'shallow'), ('rebuilt', 'fresh')]),
    opcheck.pairs_family('scaled-unary', MS1, scaled1, orders=(0, 1), preps=[('shallow',), ('rebuilt',)]),
    Family('some', gen_some, run_some, block=16),
    opcheck.history_family('histories', [op for op in MS1 + MS2 if not op.name.startswith('is_')],
                           MS1 + MS2, {'mset': hist_msets},
                           lambda tier: [M({'a': 2}), M({EMPTY: 1, RP(('a', 1)): 2}), EMPTYM]),
    opcheck.product_family('medium', MS2, {'mset': lambda tier: U.medium_msets() + U.medium_mclans()[::4]}, orders=(0, 1), block=8, preps=[('warm', 'warm'), ('rebuilt', 'shallow'), ('fresh', 'q:func')]),
    opcheck.product_family('medium-unary', MS1, {'mset': lambda tier: U.medium_msets() + U.medium_mclans()}, preps=[('warm',), ('rebuilt',), ('shallow',)]),
]
