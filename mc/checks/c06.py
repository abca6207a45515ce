"""C06: multiclan algebra (tables with duplicate rows)."""
import itertools

import algebraixlib.mathobjects as mo
import algebraixlib.undef as ud
from algebraixlib.algebras import multiclans

from .. import drive, opcheck, ops, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S

PROPERTY = 'C06'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all pairs of multiclans with <=2 of 10 representative relations and multiplicities <=2, unary on '
             'all multiclans with <=3 of 12 relations, all left arguments, depth-2 histories, all pairs of 28 multiclans of 2 to 5 rows with multiplicities <= 100, tables up to 300 rows',
    'thorough': 'all 14 relations, multiplicities <=3',
}
MC = ops.ops_of('multiclans')
MC1 = [op for op in MC if op.kinds == ('mclan',)]
MC2 = [op for op in MC if op.kinds == ('mclan', 'mclan')]
MCL = [op for op in MC if op.kinds == ('mclan', 'left')]
MCP = [op for op in MC if op.name == 'project']


def pairs_mclans(tier):
    s = U.sharp_rels()
    if tier == 'quick':
        return list(U.multisubsets(s[:9] + [s[12]], 1, 3)) + \
            list(U.multisubsets([s[0], s[1], s[3], s[5], s[7], s[8], s[11]], 2, 2))[15:]
    return list(U.multisubsets(s, 2, 2)) + list(U.multisubsets(s[:4], 3, 1))[11:]


def mixed(tier):
    rs = [EMPTY, RP((1, 'a')), RP((True, 'a')), RP((1, 'a'), (True, 'a')), RP(('a', 1)),
          RP(('a', True)), S(C(S('a'), 'b'))]
    return list(U.multisubsets(rs, 2, 2))[:60]


def unary_mclans(tier):
    s = U.sharp_rels()
    return U.uniq(list(U.multisubsets(s, 2, 2)) + list(U.multisubsets(s[:10], 3, 1)) + mixed(tier) +
                  list(U.multisubsets(U.rels2(), 2, 1)) + [t for t in U.structured() if T.is_mclan(t)])


def lefts_(tier):
    return [A('a'), A('b'), A(1), A(True), A('zz'), S('a'), EMPTY, A(1.0)]


def mclan_left(tier):
    cs = U.uniq(list(U.multisubsets(U.sharp_rels()[:10], 2, 2)) + mixed(tier))
    return itertools.product(cs, lefts_(tier))


def projections(tier):
    cs = U.uniq(list(U.multisubsets(U.sharp_rels()[:10], 2, 2))[:120] + mixed(tier))
    ls = [A('a'), A('b'), A(1), A('zz'), A(True)]
    return [(c, x, y) for c in cs for x in ls for y in ls]


def scaled(tier):
    for n in [x for x in U.SIZES if x <= 33] + ([50, 65, 100] if tier == 'thorough' else [40]):
        t = U.row_mclan(n)
        yield (t, U.row_mclan(n, start=n // 2, mults=(2, 1)))
        yield (t, M({RP(('c0', 1), ('z', 2)): 3}))
        yield (M({RP(('c0', 1), ('z', 2)): 2, RP(('q', 1)): 1}), t)
        yield (t, M({RP(('x', 'c0')): 1}))
        yield (t, M({RP(('x', 'c1')): 2}))
        yield (t, EMPTYM)
        yield (t, M({EMPTY: 2}))
        yield (M({EMPTY: 3, RP(('c0', 0)): 1}), t)
        yield (U.row_mclan(n, 3), U.row_mclan(min(n, 5), 1, 2))
    for n in U.SIZES:
        wide = M({U.func_rel(n): 2})
        yield (wide, M({U.func_rel(n): 3}))
        yield (wide, M({U.func_rel(max(n - 1, 0)): 2}))
        yield (M({RP(('a', 1)): n}), M({RP(('b', 1)): n + 1}))
        yield (M({RP(('a', 1)): n, RP(('a', 2)): 1}), M({EMPTY: 2, RP(('a', 1), ('b', 1)): 1}))
        yield (U.row_mclan(n, 1), M({RP(('c9', 1)): 2}))
        yield (M({RP(('c0', 0)): 2}), U.row_mclan(n, 1))


def scaled1(tier):
    for n in U.SIZES:
        t = U.row_mclan(n)
        rows = sorted(t[1], key=lambda p: T.key(p[0]))
        yield (t,)
        yield (U.row_mclan(n, 3, mults=(1,)),)
        if rows:
            r, k = rows[-1]
            yield (('m', frozenset(rows[:-1] + [(ops.s_union(r, RP(('extra', 1))), k)])),)
            yield (('m', frozenset(rows[:-1] + [(ops.s_union(r, RP(('c0', 'x'))), k)])),)
            yield (('m', frozenset(rows + [(EMPTY, 2)])),)
        yield (M({U.func_rel(n): 2}),)
        yield (M({RP(('a', 1)): n}),)
        rr = {RP(('l{}'.format(i), 1), ('m{}'.format(i), 2)): 1 + i % 3 for i in range(n)}
        yield (M(rr),)
        rr[RP(('q', 1), ('r', 3))] = 1
        yield (M(rr),)
    for n in (3, 6, 8, 12, 33):
        for t in U.near_regular(n):
            for x in (t, U.transposed(t)):
                yield (T.MI({r: 1 + i for i, r in enumerate(sorted(x[1], key=T.key))}),)
    for n, k in ((2, 3), (3, 4), (5, 5), (12, 2)):
        for step in (0, 1, k):
            for x in (U.fan_clan(n, k, step), U.transposed(U.fan_clan(n, k, step))):
                yield (T.MI({r: 1 + 3 * i for i, r in enumerate(sorted(x[1], key=T.key))}),)


def scaled_left(tier):
    for n in U.SIZES:
        for t in (U.row_mclan(n), U.row_mclan(n, 1, mults=(1,)), M({RP(('c0', 1)): n, RP(('c1', 2)): 1, RP(('c0', 1), ('c0', 2)): 2})):
            for l in ('c0', 'c1', 'zz'):
                yield (t, A(l))


def gen_ctor(tier):
    vals = ['a', 1, True]
    for k in range(0, 4):
        for ls in itertools.combinations(['a', 'b', 1], k):
            for rs in itertools.product(vals, repeat=k):
                yield ('from_dict', tuple(zip(ls, rs)))
                # a plain value and the atom of it are different keys, but the same left
                yield ('from_twins', tuple(zip(ls, rs)))
    for k in range(0, 4):
        for ls in itertools.product(['a', 1, True, 'U'], repeat=k):
            yield ('diag', ls)
    for n in U.SIZES:
        yield ('from_dict', tuple((i, i % 5) for i in range(n)))
        yield ('diag', tuple(range(n)))
    for c in pairs_mclans('quick')[:60]:
        for k in range(0, 4):
            for ls in itertools.product(['a', 'b', 1], repeat=k):
                yield ('project', c, ls)
    for n in (1, 2, 5, 6, 7, 8, 9, 12, 17, 33):
        cols = tuple('c{}'.format(j) for j in range(n))
        for rows in (1, 2, 5):
            for c in (U.row_mclan(rows, n), T.MI({r: 1 + 3 * i for i, r in enumerate(sorted(U.fan_clan(rows, n)[1], key=T.key))})):
                for k in sorted({n - 1, n // 2, n}):
                    yield ('project', c, cols[:k])
                    yield ('project', c, cols[n - k:] + ('zz',))
                yield ('project', c, cols + cols[:1] + ('a', 'x'))


def run_ctor(case, ctx):
    kind = case[0]
    if kind == 'from_dict':
        res = multiclans.from_dict(dict(case[1]))
        want = M({('s', frozenset(C(k, v) for k, v in case[1])): 1})
    elif kind == 'from_twins':
        for d, pairs in drive.twin_dicts(case[1], ('a', 1, 'z')):
            drive.judge(ctx, 'multiclans.from_dict({})'.format(d), multiclans.from_dict(d), M({RP(*pairs): 1}), flags=2)
        return ctx.trace()
    elif kind == 'diag':
        args = [ud.Undef() if x == 'U' else x for x in case[1]]
        want = T.UNDEF if 'U' in case[1] else M({ops.r_diag(*[A(x) for x in case[1]]): 1})
        res = multiclans.diag(*args)
    else:
        _, c, ls = case
        want = ops.mc_project(c, *[A(l) for l in ls])
        res = multiclans.project(T.mk(c), *ls)
    drive.judge(ctx, lambda: 'multiclans.{}{}'.format(kind, case[1:]), res, want, flags=2)
    if isinstance(res, mo.MathObject):
        ctx.state((want, T.flag_vector(res)))
        for name in ('functional', 'right_functional', 'reflexive', 'symmetric', 'transitive', 'regular',
                     'right_regular'):
            ctx.step()
            got = getattr(multiclans, 'is_' + name)(res)
            if got is not T.facts(want)[name]:
                ctx.fail('{} of {}{} = {} is {}'.format(name, kind, case[1:], T.show(want), got))
    ctx.trace()


def hist(tier):
    s = U.sharp_rels()
    base = [EMPTYM, M({EMPTY: 2})] + [M({r: 2}) for r in s[1:11]] + \
        [M({s[1]: 1, s[2]: 2}), M({s[5]: 2, s[6]: 1}), M({s[1]: 1, s[8]: 1}), M({s[5]: 3, EMPTY: 1}),
         M({s[10]: 1, s[11]: 2}), M({s[12]: 1, s[13]: 1})]
    return base if tier == 'quick' else U.uniq(base + list(U.multisubsets(s[:6], 2, 2)))


FAMILIES = [
    opcheck.product_family('pairs', MC2, {'mclan': pairs_mclans}, modes=(None, False), orders=(0, 1), block=16,
                           preps=[('shallow', 'fresh'), ('rebuilt', 'shallow')]),
    opcheck.product_family('pairs-mixed', MC2, {'mclan': mixed}, orders=(0,), block=16,
                           preps=[('shallow', 'shallow')]),
    opcheck.product_family('unary', MC1, {'mclan': unary_mclans}, modes=(None, False), block=2),
    opcheck.pairs_family('mclan-left', MCL, mclan_left, modes=(None, False), block=16,
                         preps=[('shallow', 'fresh'), ('rebuilt', 'fresh')]),
    opcheck.pairs_family('project', MCP, projections, block=16, preps=[('shallow', 'fresh', 'fresh')]),
    opcheck.pairs_family('scaled', MC2, scaled, preps=[('shallow', 'shallow')]),
    opcheck.pairs_family('scaled-unary', MC1, scaled1, orders=(0, 1), preps=[('shallow',), ('rebuilt',)]),
    opcheck.pairs_family('scaled-left', MCL, scaled_left, preps=[('shallow', 'fresh')]),
    Family('constructors', gen_ctor, run_ctor, block=4),
    opcheck.history_family('histories', [op for op in MC1 + MC2 if not op.name.startswith('is_')],
                           MC1 + MC2 + MCL, {'mclan': hist},
                           lambda tier: [M({RP(('a', 1)): 2}), M({RP(('a', 'a'), ('b', 'a')): 1, EMPTY: 2}), A('a')]),
    opcheck.product_family('medium', MC2, {'mclan': lambda tier: U.medium_mclans()}, orders=(0, 1), block=8, preps=[('warm', 'warm'), ('rebuilt', 'shallow'), ('fresh', 'q:func')]),
    opcheck.product_family('medium-unary', MC1, {'mclan': lambda tier: U.medium_mclans()}, preps=[('warm',), ('rebuilt',), ('shallow',)]),
    opcheck.product_family('medium-left', MCL, {'mclan': lambda tier: U.medium_mclans(), 'left': lambda tier: [A(v) for v in 'abcdxz'] + [A(1), A(True), S('x'), EMPTY]}, block=4, preps=[('warm', 'fresh'), ('rebuilt', 'fresh')]),
]
