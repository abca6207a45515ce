"""C08: membership and property queries answer by definition, whatever was asked or done before."""
import itertools

from .. import drive, history as H, opcheck, ops, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S

PROPERTY = 'C08'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'for ~150 values (all 16 relations over 2 atoms, one-relation clans, representative clans, multiclans '
             'and nested values): breadth-first search over all sequences of the 40 queries to the fixpoint of the '
             'cache state; all 512 relations over 3 atoms and all 697 clans with <=3 relations over 2 atoms in 3 '
             'query orders; all queries on all results of operations on representative values; tables and '
             'relations up to 300 elements with one deviating element; tables of up to 100 columns one row of which deviates; 143 values of middle size',
    'thorough': 'query-sequence fixpoint for ~1200 values including all 697 clans with <=3 relations',
}
Q_ALL = sorted(H.ALL_QUERIES)


def values(tier):
    s = U.sharp_rels()
    if tier == 'quick':
        return U.uniq(U.structured() + U.rels2() + U.clans2(1) + U.rels2(A(1), A(True))[:8] +
                      list(U.multisubsets([s[0], s[1], s[2], s[5], s[8], s[12]], 2, 1)) +
                      list(U.subsets([s[0], s[1], s[5], s[8], s[10], s[12]], 2, 2)) +
                      [S(S(x), S(y)) for x, y in ((s[1], s[2]), (s[8], s[5]))])
    return U.uniq(U.structured() + U.rels2() + U.clans2(3) + U.rels2(A(1), A(True)) +
                  list(U.multisubsets(s[:9], 2, 2)) + list(U.subsets(s, 1, 2)) +
                  [S(c) for c in U.clans2(2)[1:60]] +
                  [S(c, d) for c, d in itertools.combinations([S(x) for x in s[1:9]] + [S(s[1], s[2]), S(s[5], s[6])], 2)])


def gen_bfs(tier):
    for t in values(tier):
        yield (t,)


def run_bfs(case, ctx):
    t, = case
    start = ('base', t)
    fl = H.deep_flags(H.build(start))
    seen = {fl}
    frontier = [(start, fl)]
    i = 0
    while i < len(frontier):
        rec, _ = frontier[i]
        i += 1
        for q in Q_ALL:
            obj = H.build(rec)
            before = T.flag_vector(obj)
            H.ask(ctx, q, obj, t, ' (after {})'.format(H.show(rec)))
            after = T.flag_vector(obj)
            if not H.known_kept(before, after):
                ctx.fail('query {} of {} changed a known status'.format(q, H.show(rec)))
            H.ask(ctx, q, obj, t, ' (asked again after {})'.format(H.show(rec)))
            fl2 = H.deep_flags(obj)
            if fl2 not in seen:
                seen.add(fl2)
                frontier.append((('q', q, rec), fl2))
                if len(frontier) > 4000:
                    raise AssertionError('state space unexpectedly large')
    for fl in seen:
        ctx.state((t, fl))
    ctx.outcome(len(seen))
    ctx.trace()
    if ctx.cases % 100 == 1:
        ctx.sample((T.show(t), len(seen)))


def scaled(tier):
    for n in U.SIZES:
        r, row, mrow = U.func_rel(n), U.row_clan(n), U.row_mclan(n)
        rows = sorted(row[1], key=T.key)
        yield r
        yield row
        yield mrow
        yield U.int_set(n)
        yield U.int_mset(n)
        yield U.chain_rel(n)
        yield U.fan_rel(n)
        yield ('s', frozenset(C(i, i) for i in range(n)))
        if n:
            for x in (C('a', 'b'), EMPTY, A('zz'), C('k0', 'x'), C('zz', 1000), C('a', EMPTY), EMPTYM,
                      RP(('c0', 1), ('c0', 2)), RP(('c0', 1)), RP(('c0', 1), ('c1', EMPTY)), RP(('c0', 1), ('c1', 1))):
                for base in (r, row, U.int_set(n)):
                    es = sorted(base[1], key=T.key)
                    yield ('s', frozenset(es[1:] + [x]))
                es = sorted(mrow[1], key=lambda p: T.key(p[0]))
                yield T.MI(dict(es[1:] + [(x, 2)]))
            diag = [C(i, i) for i in range(n)]
            yield ('s', frozenset(diag[:-1] + [C(n, n - 1)]))
            yield ('s', frozenset(diag + [C(0, n - 1)]))
            yield ('s', frozenset(diag + [C(0, n - 1), C(n - 1, 0)]))
        if n <= 33:
            eq = [('c', A(i), A(j)) for i in range(n) for j in range(n) if i % 3 == j % 3]
            yield ('s', frozenset(eq))
            for k in {0, len(eq) // 2, len(eq) - 1}:
                if eq:
                    yield ('s', frozenset(eq[:k] + eq[k + 1:]))
            yield ('s', frozenset(S(*rows[:i + 1]) for i in range(n)))
            yield ('s', frozenset(S(x) for x in rows))
            yield ('s', frozenset([S(x) for x in rows[1:]] + [S(RP(('q', 1)))]))


def gen_near_regular(tier):
    for n in list(range(1, 13)) + [16, 17, 31, 33, 64, 100] + ([257, 1000] if tier != 'quick' else []):
        for t in U.near_regular(n):
            for x in (t, U.transposed(t)):
                yield (x,)
                yield (T.MI({r: 1 + i for i, r in enumerate(sorted(x[1], key=T.key))}),)


def gen_medium(tier):
    for t in U.medium_all():
        yield (t,)


def gen_scaled(tier):
    for t in scaled(tier):
        yield (t,)


def run_scaled(case, ctx):
    t, = case
    for order in (0, 1, 2):
        obj = T.mk(t, order)
        seq = Q_ALL if order == 0 else Q_ALL[::-1] if order == 1 else Q_ALL[1::2] + Q_ALL[::2]
        for q in seq:
            H.ask(ctx, q, obj, t, ' order={}'.format(order))
        ctx.state((t, T.flag_vector(obj)))
    for q in Q_ALL:
        H.ask(ctx, q, T.mk(t), t, ' (first query)')
    ctx.trace()


# Queries about results of operations: the flags that operations derive must not change any answer.
def seeds(tier):
    s = U.sharp_rels()
    rel = [EMPTY, s[1], s[2], s[5], s[6], s[8], s[10], s[11], s[12], s[13], RP(('a', 'a'), ('a', 'b'), ('b', 'b')),
           S(C(S('a'), 'b')), S(C('a', EMPTY))]
    cl = [EMPTY, S(EMPTY), S(s[1]), S(s[1], s[2]), S(s[5], s[6]), S(s[8]), S(s[1], s[5]), S(s[12]), S(s[10], s[11]),
          S(s[1], EMPTY), S(S(C(S('a'), 'b'))), S(s[13], s[12])]
    ms = [EMPTYM, M({'a': 2}), M({'a': 1, 'b': 1}), M({EMPTY: 1})] + \
        [('m', frozenset((e, 1 + i % 2) for i, e in enumerate(sorted(c[1], key=T.key)))) for c in cl[2:]] + [M({S('a'): 2}), M({C('a', 'b'): 1})]
    st = [EMPTY, S('a'), S('a', 'b'), S(EMPTY), S('a', EMPTY), s[1], S(s[1]), S(S(s[1])), S(S(s[1]), S(s[2])), S(S(s[1]), S(s[8])),
          S('a', s[1]), S(C('a', 'b'), 'a'), S(M({'a': 1}))]
    return {'rel': rel, 'clan': cl, 'mset': ms, 'mclan': [m for m in ms if T.is_mclan(m)], 'set': U.uniq(st + rel[1:4] + cl[1:6]),
            'couplet': [C('a', 'b'), C('a'), C('b', 'a'), C(S('a'), 'b'), C(1, 2)], 'left': [A('a'), A('b'), A(1), S('a')]}


def gen_results(tier):
    sd = seeds(tier)
    for op in ops.OPS:
        if op.name.startswith('is_'):
            continue
        for args in itertools.product(*[sd[k] for k in op.kinds]):
            for prep in ('fresh', 'warm', 'shallow'):
                yield (op.id, prep) + args


def run_results(case, ctx):
    op, prep, args = ops.BY_ID[case[0]], case[1], case[2:]
    want = op.ref(*args)
    if want is None or want is T.UNDEF:
        return
    for k in (0, 1, 2):
        objs = [opcheck.build(t, prep) for t in args]
        res = op.fn(*objs)
        t = T.term(res)
        if t != want:
            ctx.fail('{}({}) is {}'.format(op.id, ', '.join(map(T.show, args)), res))
        how = ' (it is the result of {}({}) on {} operands, query order {})'.format(
            op.id, ', '.join(map(T.show, args)), prep, k)
        for q in (Q_ALL if k == 0 else Q_ALL[::-1] if k == 1 else Q_ALL[len(Q_ALL) // 2:] + Q_ALL[:len(Q_ALL) // 2]):
            H.ask(ctx, q, res, t, how)
        if k == 0:
            for o, ta in zip(objs, args):
                for q in Q_ALL:
                    H.ask(ctx, q, o, ta, ' (operand of {}({}))'.format(op.id, ', '.join(map(T.show, args))))
        ctx.state((op.id, args, prep, T.flag_vector(res)))
    ctx.trace()


def gen_all3(tier):
    for r in U.rels3():
        yield (r,)
    for t in U.clans2(3):
        yield (t,)


FAMILIES = [
    Family('query-sequences', gen_bfs, run_bfs),
    Family('all-relations-3-atoms', gen_all3, run_scaled, block=4),
    Family('near-regular', gen_near_regular, run_scaled, block=8),
    Family('medium', gen_medium, run_scaled, block=4),
    Family('scaled', gen_scaled, run_scaled),
    Family('operation-results', gen_results, run_results, block=8),
]
