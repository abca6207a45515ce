"""C14: ordering, offset and limit select exactly the rows of the sorted table, duplicates included."""
import itertools

import algebraixlib.mathobjects as mo
import algebraixlib.undef as ud
from algebraixlib.algebras import multiclans

from .. import drive, history as H, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S

PROPERTY = 'C14'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all multiclans with <= 3 of 4 rows and multiplicities <= 3, all weak orders of the rows, every offset and limit up to '
             'two beyond the total (and infinity), as atoms and plain numbers, checked and unchecked, fresh and queried, lists and '
             'multiclans; all pairs of consecutive pages; sizes up to 300 with every offset and limit near tuple boundaries',
    'thorough': 'all multiclans with <= 4 of 5 rows and multiplicities <= 3 (4 rows: <= 2)',
}
INF = float('inf')
ROWS = [RP(('a', 1)), RP(('a', 1), ('b', 2)), RP(('a', 'x'), ('a', 'y')), EMPTY, RP(('k', True))]


def weak_orders(n):
    """All rankings of n items (each rank vector in canonical form)."""
    for ranks in itertools.product(range(n), repeat=n):
        if set(ranks) == set(range(max(ranks) + 1)):
            yield ranks


def ref_slice(pairs, ranks, offset, limit):
    """pairs: [(row, n)]; returns {rank: number of rows taken from the rank}."""
    out, pos = {}, 0
    end = offset + limit
    for rank in sorted(set(ranks.values())):
        total = sum(n for r, n in pairs if ranks[r] == rank)
        lo, hi = max(offset, pos), min(end, pos + total)
        if hi > lo:
            out[rank] = hi - lo
        pos += total
    return out


def judge_rows(ctx, what, got, pairs, ranks, offset, limit, ordered):
    """got: [(row term, n)] in the order produced."""
    mult = dict(pairs)
    if len({r for r, _ in got}) != len(got):
        ctx.fail('{}: a row is listed twice: {}'.format(what(), [(T.show(r), n) for r, n in got]))
    for r, n in got:
        if r not in mult or not 0 < n <= mult[r] or isinstance(n, float):
            ctx.fail('{}: {} x {!r} of {}'.format(what(), T.show(r), n, mult.get(r, 0)))
    if ordered and any(ranks[x[0]] > ranks[y[0]] for x, y in zip(got, got[1:])):
        ctx.fail('{}: rows are out of order: {}'.format(what(), [T.show(r) for r, _ in got]))
    want = ref_slice(pairs, ranks, offset, limit)
    have = {}
    for r, n in got:
        have[ranks[r]] = have.get(ranks[r], 0) + n
    if have != want:
        ctx.fail('{}: got {} (rows per rank {}), expected rows per rank {}'.format(
            what(), [(T.show(r), n) for r, n in got], have, want))
    # rows of equal rank: all but the first and the last row are taken with their full multiplicity
    for rank in want:
        cls = [(r, n) for r, n in got if ranks[r] == rank]
        if sum(1 for r, n in cls if n < mult[r]) > 2:
            ctx.fail('{}: not a contiguous range of rows: {}'.format(what(), [(T.show(r), n) for r, n in cls]))


def read_list(lst):
    return [(T.term(r), n) for r, n in lst]


def lt(ranks_by_obj):
    return lambda r1, r2: mo.Atom(ranks_by_obj[r1] < ranks_by_obj[r2])


def mclans(tier):
    if tier == 'quick':
        yield from U.multisubsets(ROWS[:4], 3, 3)
    else:
        yield from U.multisubsets(ROWS, 3, 3)
        yield from (m for m in U.multisubsets(ROWS, 4, 2) if len(m[1]) == 4)


def gen_all(tier):
    for t in mclans(tier):
        for ranks in weak_orders(len(t[1])) if t[1] else [()]:
            yield (t, ranks)


def run_all(case, ctx):
    t, rv = case
    pairs = sorted(t[1], key=lambda p: T.key(p[0]))
    ranks = {r: k for (r, _), k in zip(pairs, rv)}
    rob = {T.mk(r): k for r, k in ranks.items()}
    total = sum(n for _, n in pairs)
    f = lt(rob)
    strict = len(set(rv)) == len(rv)
    objs = [T.mk(t), drive.warm_full(T.mk(t, 1)), T.mk(t, 2)]
    k = 0
    for offset in range(total + 2):
        for limit in list(range(total + 2)) + [INF]:
            k += 1
            forms = [(mo.Atom(offset), mo.Atom(limit), {}), (offset, limit, {}), (mo.Atom(offset), mo.Atom(limit), {'_checked': False})]
            for i, (o, l, kw) in enumerate(forms):
                obj = objs[(i + k) % 3]
                what = lambda: '{} ordered by {} offset {!r} limit {!r} {}'.format(
                    T.show(t), [(T.show(r), x) for r, x in ranks.items()], o, l, kw)
                ctx.step(3)
                lst = read_list(multiclans.order_slice_to_listgen(obj, f, o, l, **kw))
                judge_rows(ctx, lambda: 'list of ' + what(), lst, pairs, ranks, offset, limit, True)
                res = multiclans.order_slice(obj, f, o, l, **kw)
                rt = T.term(res)
                if strict and rt != T.MI(dict(lst)):
                    ctx.fail('slice of {} is {}, expected {}'.format(what(), res, lst))
                judge_rows(ctx, lambda: 'slice of ' + what(), list(rt[1]), pairs, ranks, offset, limit, False)
                bad = T.deep_unsound(res, rt)
                if bad:
                    ctx.fail('slice of {}: {}'.format(what(), bad[0]))
                plain = read_list(multiclans.multiclan_to_listgen(obj, o, l, **kw))
                judge_rows(ctx, lambda: 'unordered list of ' + what(), plain, pairs, {r: 0 for r, _ in pairs}, offset, limit, False)
                ctx.outcome(len(lst))
            ctx.state((t, rv, offset, limit))
    # pages: consecutive ranges reproduce the whole sorted table
    if strict:
        for size in range(1, total + 1):
            pages = []
            for off in range(0, total, size):
                pages += read_list(multiclans.order_slice_to_listgen(objs[0], f, mo.Atom(off), mo.Atom(size)))
            rows = [r for r, n in pages for _ in range(n)]
            want = [r for r, n in sorted(pairs, key=lambda p: ranks[p[0]]) for _ in range(n)]
            ctx.step()
            if rows != want:
                ctx.fail('pages of size {} of {} give {}'.format(size, T.show(t), [T.show(r) for r in rows]))
    for o in objs:
        H.check_object(ctx, o, t, lambda: 'operand')
    ctx.trace()


def gen_scaled(tier):
    for n in U.SIZES[::2] + [300] + (U.SIZES[1::2] + U.SIZES_XL[:8] if tier != 'quick' else []):
        for mults in ((1, 2, 3), (1,), (1000, 1, 5)):
            for desc in (False, True):
                for part in range(6 if n >= 100 else 2):
                    yield (n, mults, desc, part)


def run_scaled(case, ctx):
    n, mults, desc, part = case
    parts = 6 if n >= 100 else 2
    t = U.row_mclan(n, 2, 0, mults)
    pairs = sorted(t[1], key=lambda p: T.key(p[0]))
    idx = {r: [c for c in r[1] if c[1][2] == 'c0'][0][2][2] for r, _ in pairs}
    ranks = {r: -i if desc else i for r, i in idx.items()}
    rob = {T.mk(r): k for r, k in ranks.items()}
    f = lt(rob)
    obj = T.mk(t, 1 if desc else 0)
    bounds, pos = [0], 0
    for r, m in sorted(pairs, key=lambda p: ranks[p[0]]):
        pos += m
        bounds.append(pos)
    pts = sorted({p + d for p in {bounds[0], bounds[len(bounds) // 2], bounds[-1], bounds[len(bounds) // 3]}
                  for d in ((-1, 0, 1) if n < 200 else (0, 1)) if p + d >= 0})
    for off in pts[part::parts]:
        for end in pts + [INF]:
            if end < off:
                continue
            ctx.step()
            lst = read_list(multiclans.order_slice_to_listgen(obj, f, mo.Atom(off), mo.Atom(end - off)))
            judge_rows(ctx, lambda: 'n={} mults={} desc={} offset={} limit={}'.format(n, mults, desc, off, end - off), lst, pairs, ranks,
                       off, end - off, True)
            res = multiclans.order_slice(obj, f, mo.Atom(off), mo.Atom(end - off))
            if T.term(res) != T.MI(dict(lst)):
                ctx.fail('n={} mults={} desc={} offset={} limit={}: slice differs from list'.format(n, mults, desc, off, end - off))
    ctx.state((n, mults, desc, part))
    ctx.trace()


def gen_wrong(tier):
    for i in range(8):
        yield (i,)


def run_wrong(case, ctx):
    m = T.mk(M({RP(('a', 1)): 2}))
    f = lambda a, b: mo.Atom(False)
    bad = [(mo.Set('a'), mo.Atom(0), mo.Atom(1)), (ud.Undef(), mo.Atom(0), mo.Atom(1)), (m, mo.Atom('x'), mo.Atom(1)),
           (m, mo.Atom(0), mo.Atom('x')), (m, ud.Undef(), mo.Atom(1)), (m, mo.Atom(0), ud.Undef()), (m, 1.5, 1), (m, 0, 'x')][case[0]]
    for fn in (lambda: multiclans.order_slice(bad[0], f, bad[1], bad[2]), lambda: multiclans.order_slice_to_listgen(bad[0], f, bad[1], bad[2]),
               lambda: multiclans.multiclan_to_listgen(*bad)):
        ctx.step()
        if fn() is not ud.Undef():
            ctx.fail('slice with wrong arguments {!r} is not undef'.format(bad))
    ctx.state(case)
    ctx.trace()


FAMILIES = [
    Family('all-small', gen_all, run_all),
    Family('scaled', gen_scaled, run_scaled),
    Family('wrong-arguments', gen_wrong, run_wrong),
]
