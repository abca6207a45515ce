"""C04: clan algebra."""
import itertools

import algebraixlib.mathobjects as mo
import algebraixlib.undef as ud
from algebraixlib.algebras import clans

from .. import drive, opcheck, ops, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, M, RP, S

PROPERTY = 'C04'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all pairs of the 106 clans with <=2 of 14 representative relations, unary on all 697 clans with '
             '<=3 relations over 2 atoms and on clans with colliding atoms, all left arguments, depth-2 '
             'histories over 30 clans, all pairs of 22 tables of 3 to 5 rows of every shape, tables up to 300 rows, projections of up to 33 columns',
    'thorough': 'all pairs of the 470 clans with <=3 of 14 relations',
}
CL = ops.ops_of('clans')
CL1 = [op for op in CL if op.kinds == ('clan',)]
CL2 = [op for op in CL if op.kinds == ('clan', 'clan')]
CLL = [op for op in CL if op.kinds == ('clan', 'left')]
CLP = [op for op in CL if op.name == 'project']


def pairs_clans(tier):
    return list(U.subsets(U.sharp_rels(), 0, 2 if tier == 'quick' else 3))


def mixed_clans(tier):
    rs = [EMPTY, RP((1, 'a')), RP((True, 'a')), RP((1.0, 'a')), RP((1, 'a'), (True, 'a')), RP(('a', 1)),
          RP(('a', True)), S(C(S('a'), 'b')), S(C('a', EMPTY))]
    return list(U.subsets(rs, 0, 2))


def unary_clans(tier):
    return U.uniq(U.clans2(3) + list(U.subsets(U.sharp_rels(), 0, 3)) + mixed_clans(tier) +
                  [t for t in U.structured() if T.is_clan(t)])


def lefts_(tier):
    return [A('a'), A('b'), A(1), A(True), A('zz'), S('a'), EMPTY, A(1.0)]


def clan_left(tier):
    cs = U.uniq(U.clans2(2) + pairs_clans('quick') + mixed_clans(tier))
    return itertools.product(cs, lefts_(tier))


def projections(tier):
    cs = U.uniq(U.clans2(2)[:60] + pairs_clans('quick') + mixed_clans(tier))
    ls = [A('a'), A('b'), A(1), A('zz'), A(True)]
    return [(c, x, y) for c in cs for x in ls for y in ls]


def scaled(tier):
    for n in [x for x in U.SIZES if x <= 33] + ([50, 65, 100] if tier == 'thorough' else [40]):
        t = U.row_clan(n)
        yield (t, U.row_clan(n, start=n // 2))
        yield (t, S(RP(('c0', 1), ('z', 2))))
        yield (S(RP(('c0', 1), ('z', 2)), RP(('q', 1))), t)
        yield (t, S(RP(('x', 'c0'))))
        yield (t, S(RP(('x', 'c0'), ('y', 'c1'))))
        yield (t, EMPTY)
        yield (t, S(EMPTY))
        yield (S(EMPTY, RP(('c0', 0))), t)
        yield (U.row_clan(n, 3), U.row_clan(min(n, 5), 1, 2))
        yield (U.row_clan(min(n, 5), 1, 2), U.row_clan(n, 3))
        yield (U.row_clan(min(n, 9), 2), U.row_clan(min(n, 12), 2, start=1))
    for n in U.SIZES:
        wide = S(U.func_rel(n))
        yield (wide, wide)
        yield (wide, S(U.func_rel(n, n - 1, 1000 + n)))
        yield (wide, S(U.func_rel(n, 0, 9000)))
        yield (wide, S(U.func_rel(max(n - 1, 0))))
        yield (U.row_clan(n, 1), S(RP(('c9', 1))))
        yield (S(RP(('c0', 0))), U.row_clan(n, 1))
        yield (U.row_clan(n, 1), S(RP(('c0', n - 1)), EMPTY))
        yield (S(RP(('c0', 0), ('c1', 0)), RP(('c0', n - 1))), U.row_clan(n, 1))


def scaled1(tier):
    for n in U.SIZES:
        t = U.row_clan(n)
        rows = sorted(t[1], key=T.key)
        yield (t,)
        yield (U.row_clan(n, 4, mod=1000003),)
        if rows:
            # one row with an additional left, with a missing left, and with two rights for one left
            yield (('s', frozenset(rows[:-1] + [ops.s_union(rows[-1], RP(('extra', 1)))])),)
            yield (('s', frozenset(rows[1:] + [ops.s_union(rows[0], RP(('extra', 1)))])),)
            yield (('s', frozenset(rows[:-1] + [('s', frozenset(list(rows[-1][1])[:1]))])),)
            yield (('s', frozenset(rows[:-1] + [ops.s_union(rows[-1], RP(('c0', 'x')))])),)
            yield (('s', frozenset(rows + [EMPTY])),)
        yield (S(U.func_rel(n)),)
        yield (S(U.func_rel(n), U.func_rel(n, 0, 5000)),)
        # right-regular tables: the same rights under n different lefts
        rr = ('s', frozenset(RP(('l{}'.format(i), 1), ('m{}'.format(i), 2)) for i in range(n)))
        yield (rr,)
        yield (ops.s_union(rr, S(RP(('q', 1), ('r', 3)))),)
    for n in (3, 6, 8, 12, 33):
        for t in U.near_regular(n):
            yield (t,)
            yield (U.transposed(t),)
    for n, k in ((2, 3), (3, 4), (5, 5), (12, 2)):
        for step in (0, 1, k):
            yield (U.fan_clan(n, k, step),)
            yield (U.transposed(U.fan_clan(n, k, step)),)


def gen_ctor(tier):
    vals = ['a', 1, True]
    for k in range(0, 4):
        for ls in itertools.combinations(['a', 'b', 1], k):
            for rs in itertools.product(vals, repeat=k):
                yield ('from_dict', tuple(zip(ls, rs)))
                # a plain value and the atom of it are different keys, but the same left
                yield ('from_twins', tuple(zip(ls, rs)))
    for k in range(0, 4):
        for ls in itertools.product(['a', 1, True, 'U'], repeat=k):
            yield ('diag', ls)
        for vs in itertools.product(['a', 1, True, 1.0], repeat=k):
            yield ('from_set', ('x',) + vs)
            yield ('from_set', (1,) + vs)
    for n in U.SIZES:
        yield ('from_dict', tuple((i, i % 5) for i in range(n)))
        yield ('from_set', ('x',) + tuple(range(n)))
        yield ('diag', tuple(range(n)))
    for c in pairs_clans('quick')[:60]:
        for k in range(0, 4):
            for ls in itertools.product(['a', 'b', 1], repeat=k):
                yield ('project', c, ls)
    for n in (1, 2, 5, 6, 7, 8, 9, 12, 17, 33):
        cols = tuple('c{}'.format(j) for j in range(n))
        for rows in (1, 2, 5):
            for c in (U.row_clan(rows, n), U.fan_clan(rows, n)):
                for k in sorted({n - 1, n // 2, n}):
                    yield ('project', c, cols[:k])
                    yield ('project', c, cols[n - k:] + ('zz',))
                yield ('project', c, cols + cols[:1] + ('a', 'x'))


def run_ctor(case, ctx):
    kind = case[0]
    if kind == 'from_dict':
        d = dict(case[1])
        res = clans.from_dict(d)
        want = S(('s', frozenset(C(k, v) for k, v in case[1])))
    elif kind == 'from_twins':
        for d, pairs in drive.twin_dicts(case[1], ('a', 1, 'z')):
            drive.judge(ctx, 'clans.from_dict({})'.format(d), clans.from_dict(d), S(RP(*pairs)), flags=2)
        return ctx.trace()
    elif kind == 'from_set':
        left, vals = case[1][0], case[1][1:]
        res = clans.from_set(left, *vals)
        want = S(*[RP((left, v)) for v in vals])
    elif kind == 'diag':
        args = [ud.Undef() if x == 'U' else x for x in case[1]]
        want = T.UNDEF if 'U' in case[1] else S(ops.r_diag(*[A(x) for x in case[1]]))
        res = clans.diag(*args)
    else:
        _, c, ls = case
        want = ops.cl_project(c, *[A(l) for l in ls])
        res = clans.project(T.mk(c), *ls)
    drive.judge(ctx, lambda: 'clans.{}{}'.format(kind, case[1:]), res, want, flags=2)
    if isinstance(res, mo.MathObject):
        ctx.state((want, T.flag_vector(res)))
        for name in ('functional', 'right_functional', 'reflexive', 'symmetric', 'transitive', 'regular',
                     'right_regular'):
            ctx.step()
            got = getattr(clans, 'is_' + name)(res)
            if got is not T.facts(want)[name]:
                ctx.fail('{} of the clan {}{} = {} is {}'.format(name, kind, case[1:], T.show(want), got))
    ctx.trace()


def hist_clans(tier):
    s = U.sharp_rels()
    base = [EMPTY, S(EMPTY)] + [S(r) for r in s[1:11:1]] + \
        [S(s[1], s[2]), S(s[5], s[6]), S(s[1], s[8]), S(s[5], EMPTY), S(s[10], s[11]), S(s[12], s[13])]
    return base if tier == 'quick' else U.uniq(base + list(U.subsets(s[:8], 0, 2)))


FAMILIES = [
    opcheck.product_family('pairs', CL2, {'clan': pairs_clans}, modes=(None, False), orders=(0, 1), block=16,
                           preps=[('shallow', 'fresh'), ('rebuilt', 'shallow')]),
    opcheck.product_family('pairs-mixed', CL2, {'clan': mixed_clans}, orders=(0,), block=16,
                           preps=[('shallow', 'shallow')]),
    opcheck.product_family('unary', CL1, {'clan': unary_clans}, modes=(None, False), block=2),
    opcheck.pairs_family('clan-left', CLL, clan_left, modes=(None, False), block=16,
                         preps=[('shallow', 'fresh'), ('rebuilt', 'fresh')]),
    opcheck.pairs_family('project', CLP, projections, block=16, preps=[('shallow', 'fresh', 'fresh')]),
    opcheck.pairs_family('scaled', CL2, scaled, preps=[('shallow', 'shallow')]),
    opcheck.pairs_family('scaled-unary', CL1, scaled1, orders=(0, 1), preps=[('shallow',), ('rebuilt',)]),
    Family('constructors', gen_ctor, run_ctor, block=4),
    opcheck.history_family('histories', [op for op in CL1 + CL2 if not op.name.startswith('is_')],
                           CL1 + CL2 + CLL, {'clan': hist_clans},
                           lambda tier: [S(RP(('a', 1))), S(RP(('a', 'a'), ('b', 'a')), EMPTY), A('a')]),
    opcheck.product_family('medium', CL2, {'clan': lambda tier: U.medium_clans()}, orders=(0, 1), block=8, preps=[('warm', 'warm'), ('rebuilt', 'shallow'), ('fresh', 'q:func')]),
    opcheck.product_family('medium-unary', CL1, {'clan': lambda tier: U.medium_clans()}, preps=[('warm',), ('rebuilt',), ('shallow',)]),
    opcheck.product_family('medium-left', CLL, {'clan': lambda tier: U.medium_clans(), 'left': lambda tier: [A(v) for v in 'abcdxz'] + [A(1), A(True), S('x'), EMPTY]}, block=4, preps=[('warm', 'fresh'), ('rebuilt', 'fresh')]),
]
