"""C07: whatever a value records about its own properties is true, in every history."""
import itertools

import algebraixlib.mathobjects as mo
from algebraixlib.algebras import clans, multiclans, relations

from .. import drive, history as H, ops, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S

PROPERTY = 'C07'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every operation (90 of the algebras, 27 of partition/extension/restriction/indexing/matching) on all '
             'tuples of 9 (unary: ~14) seed values per kind, each operand in every cache state reachable by at most one query '
             'plus the saturated one (unary: two queries); all ordered pairs of the 16 relations over two atoms, of ~30 clans and multiclans of them and '
             '20 sets, all 512 relations over three atoms (unary), with everything queried first; all ordered pairs of ~75 partly absolute relations, sets, multisets, clans and multiclans; all ordered pairs of ~115 values of middle size, everything queried; histories of depth 2 from ~130 '
             'seed pairs in two preparations with all results and operands kept alive; sizes up to 128',
    'thorough': 'operand cache states reachable by at most two queries, all seeds, ~450 seed pairs, depth 3',
}
QN = [q for q, _ in drive.QUERIES]


def seeds(tier):
    s = U.sharp_rels()
    rel = [EMPTY, s[1], s[2], s[5], s[6], s[8], s[10], s[12], s[13], RP(('a', 'a'), ('a', 'b'), ('b', 'b')),
           S(C(S('a'), 'b')), S(C('a', EMPTY)), RP((1, 'a'), (True, 'a'))]
    cl = [EMPTY, S(EMPTY), S(s[1]), S(s[1], s[2]), S(s[5], s[6]), S(s[8]), S(s[1], s[5]), S(s[12]), S(s[1], EMPTY),
          S(S(C(S('a'), 'b'))), S(s[13], s[12]), S(s[1], s[8]), S(RP(('a', 1)), RP(('b', 1)))]
    ms = [EMPTYM, M({'a': 2}), M({'a': 1, 'b': 1}), M({EMPTY: 1}), M({S('a'): 2}), M({C('a', 'b'): 1}), M({'a': 1, s[1]: 1})] + \
        [('m', frozenset((e, 1 + i % 2) for i, e in enumerate(sorted(c[1], key=T.key)))) for c in cl[2:]]
    st = [EMPTY, S('a'), S('a', 'b'), S(EMPTY), S('a', EMPTY), s[1], s[5], S(s[1]), S(s[1], s[2]), S(S(s[1])),
          S(S(s[1]), S(s[2])), S(S(s[1]), S(s[8])), S('a', s[1]), S(C('a', 'b'), 'a'), S(M({'a': 1})), S(S('a'), S('b')),
          S(S(EMPTY), S(s[1]))]
    return {'rel': rel, 'clan': cl, 'mset': ms, 'mclan': [m for m in ms if T.is_mclan(m)], 'set': st,
            'couplet': [C('a', 'b'), C('a'), C('b', 'a'), C(S('a'), 'b'), C(1, 2)],
            'left': [A('a'), A('b'), S('a')],
            'any': U.uniq(rel[1:] + cl[1:] + ms[1:] + st[1:] + [C('a', 'b'), C('a'), EMPTY])}


def all_ops():
    out = [(op.id, op.kinds) for op in ops.OPS if not op.name.startswith('is_')]
    return out + [(k, v[0]) for k, v in H.extras().items()]


_state_cache = {}


def operand_states(t, depth):
    """Recipes, one per cache state reachable with at most ``depth`` queries, plus the saturated state."""
    k = (t, depth)
    if k in _state_cache:
        return _state_cache[k]
    recs = [('base', t)]
    seen = {H.deep_flags(H.build(recs[0]))}
    level = list(recs)
    for _ in range(depth):
        nxt = []
        for r in level:
            for q in QN:
                r2 = ('q', q, r)
                fl = H.deep_flags(H.build(r2))
                if fl not in seen:
                    seen.add(fl)
                    nxt.append(r2)
        recs += nxt
        level = nxt
    for seq in (QN, QN[::-1]):
        r = ('base', t)
        for q in seq:
            r = ('q', q, r)
        fl = H.deep_flags(H.build(r))
        if fl not in seen:
            seen.add(fl)
            recs.append(r)
    _state_cache[k] = recs
    return recs


def verify_op(ctx, op_id, fn, objs, tvals, how):
    """Execute one transition; judge everything that can be observed of cached statuses."""
    before = [T.flag_vector(o) for o in objs]
    res = fn(*objs)
    ctx.step()
    for o, t, b in zip(objs, tvals, before):
        if t[0] == 'a':
            continue
        if not H.known_kept(b, T.flag_vector(o)):
            ctx.fail('{}: a known status of operand {} changed'.format(how(), T.show(t)))
        bad = T.deep_unsound(o, t)
        if bad:
            ctx.fail('{}: operand: {}'.format(how(), bad[0]))
    if isinstance(res, mo.MathObject) and not isinstance(res, mo.Atom):
        try:
            tr = T.term(res)
        except T.Malformed as e:
            ctx.fail('{}: {}'.format(how(), e))
        bad = T.deep_unsound(res, tr)
        if bad:
            ctx.fail('{}: result: {}'.format(how(), bad[0]))
        return res, tr
    return None, None


# 1. every operation, operands in all (few-query) cache states ----------------------------------------
def gen_states(tier):
    sd = seeds(tier)
    for op_id, kinds in all_ops():
        cut = 9 if tier == 'quick' and len(kinds) > 1 else None
        for args in itertools.product(*[sd[k][:cut] for k in kinds]):
            yield (op_id, tier) + args


def run_states(case, ctx):
    op_id, tier, args = case[0], case[1], case[2:]
    fn = H.EXTRA_OR_OP(op_id)
    depth = 1 if tier == 'quick' else 2
    if len(args) == 1:
        depth = 2 if tier == "quick" else 6
    menus = [operand_states(t, depth) if t[0] != 'a' else [('base', t)] for t in args]
    for recs in itertools.product(*menus):
        objs = [H.build(r) for r in recs]
        res, tr = verify_op(ctx, op_id, fn, objs, args,
                            lambda: '{}({})'.format(op_id, ', '.join(H.show(r) for r in recs)))
        if res is not None:
            ctx.state((tr, H.deep_flags(res)))
            for q in QN:
                drive.QUERY[q](res)
            bad = T.deep_unsound(res, tr)
            if bad:
                ctx.fail('{}({}) then queried: {}'.format(op_id, ', '.join(H.show(r) for r in recs), bad[0]))
    if len(args) == 2 and args[0] == args[1]:
        for rec in menus[0]:
            o = H.build(rec)
            verify_op(ctx, op_id, fn, [o, o], args, lambda: '{}(x, x) with x={}'.format(op_id, H.show(rec)))
    ctx.outcome(op_id)
    ctx.trace()
    if ctx.cases % 2000 == 1:
        ctx.sample((op_id,) + tuple(T.show(a) for a in args))


# 1b. all relations over two atoms (and the sets, clans and multiclans made of them), everything known -------
def sat_pool(kind):
    rels = U.rels2()
    sym, full = RP(('a', 'b'), ('b', 'a')), rels[-1]
    chain = [RP((1, 2), (2, 3), (1, 3)), RP((1, 3)), RP((1, 2), (2, 3)), RP((1, 2), (2, 1), (1, 1)), RP((2, 2))]
    if kind in ('rel', 'set'):
        out = rels + chain
        if kind == 'set':
            out = [S(*r[1], 'a') for r in (sym, full)] + [S('a'), S('b'), S('a', 'b')] + out[:8] + [sym, full] + chain[:2]
        return U.uniq(out)
    base = rels[:1] + rels[1:5] + [sym, RP(('a', 'a'), ('b', 'b')), full, RP(('a', 'a'), ('a', 'b')), chain[0], chain[1], chain[2]]
    two = [S(x) for x in base] + [S(x, y) for x, y in itertools.combinations(base, 2)]
    two = [EMPTY] + two[:12] + two[12::3]
    if kind == 'clan':
        return U.uniq(two)
    return U.uniq([('m', frozenset((e, 1 + (i + len(c[1])) % 2) for i, e in enumerate(T.elems(c)))) for c in two])


def mixed_pool(kind):
    """Values in which only some of the parts are absolute: which of them an operation keeps decides what it may record."""
    x = S('x')
    if kind == 'rel':
        base = [C('a', 'x'), C('b', 1), C('a', x), C(x, 'b')]
    elif kind == 'set':
        base = [A('a'), x, C('a', 'b'), C('a', x)]
    elif kind == 'mset':
        base = [A('a'), x, C('a', x), RP(('a', 1))]
    else:
        base = [RP(('a', 'x')), RP(('b', 1)), RP(('a', x)), RP(('a', 'x'), ('b', x)), RP(('a', 'x'), (x, 'b'))]
    out = list(U.subsets(base, 0, 3 if len(base) == 4 else 2))
    if kind in ('mset', 'mclan'):
        out = [('m', frozenset((e, 1 + i % 2) for i, e in enumerate(T.elems(c)))) for c in out]
    return U.uniq(out)


def gen_mixed(tier):
    for kind in ('rel', 'clan', 'mclan', 'set', 'mset'):
        pool = mixed_pool(kind)
        for a, b in itertools.product(pool, pool):
            yield (kind, a, b)
        for a in pool:
            yield (kind, a)


def gen_medium(tier):
    for kind in ('rel', 'clan', 'mclan', 'set', 'mset'):
        pool = getattr(U, 'medium_' + kind + 's')()
        if tier == 'quick':
            pool = pool[:15] + pool[-13:] if kind == 'mclan' else pool[::2] if kind == 'mset' else pool
        for a, b in itertools.product(pool, pool):
            yield (kind, a, b)
        for a in pool:
            yield (kind, a)


def gen_saturated(tier):
    for kind in ('rel', 'clan', 'mclan', 'set'):
        pool = sat_pool(kind)
        for a, b in itertools.product(pool, pool):
            yield (kind, a, b)
    for r in U.rels3():
        yield ('rel', r)
    for kind in ('clan', 'mclan', 'set'):
        for a in sat_pool(kind):
            yield (kind, a)


def run_saturated(case, ctx):
    kind, args = case[0], case[1:]
    wanted = {'rel': ('rel', 'set'), 'clan': ('clan', 'set'), 'mclan': ('mclan', 'mset'), 'set': ('set',), 'mset': ('mset',)}[kind]
    for op_id, kk in all_ops():
        if len(kk) != len(args) or kk[0] not in wanted or any(k not in wanted for k in kk):
            continue
        if op_id in SKIP_BIG and len(args[0][1]) > 3:
            continue
        for prep in ('deep', 'first') if len(args) == 2 else ('deep',):
            objs = []
            for i, t in enumerate(args):
                o = T.mk(t)
                if prep == 'deep' or i == 0:
                    for q in QN:
                        drive.QUERY[q](o)
                objs.append(o)
            res, tr = verify_op(ctx, op_id, H.EXTRA_OR_OP(op_id), objs, args,
                                lambda: '{}({}) [{} queried]'.format(
                                    op_id, ', '.join(T.show(a) for a in args), prep))
            if res is not None:
                for q in QN:
                    drive.QUERY[q](res)
                bad = T.deep_unsound(res, tr)
                if bad:
                    ctx.fail('{}({}) [{} queried] then queried: {}'.format(
                        op_id, ', '.join(T.show(a) for a in args), prep, bad[0]))
    ctx.trace()


# 2. histories ------------------------------------------------------------------------------------------
def hist_pairs(tier):
    sd = seeds(tier)
    out = []
    for kind in ('rel', 'clan', 'mclan', 'set', 'mset'):
        vals = sd[kind] if tier != 'quick' else sd[kind][:7]
        out += [(a, b) for i, a in enumerate(vals) for b in vals[i:]]
    return U.uniq(out)


def gen_hist(tier):
    for prep in ('fresh', 'shallow'):
        for p in hist_pairs(tier):
            yield (prep, tier) + p


SKIP_BIG = {'sets.power_set', 'sets.power_up'}


def run_hist(case, ctx):
    prep, tier, a, b = case
    opl = all_ops()
    pool = []
    for t in (a, b):
        pool.append((T.show(t), drive.PREPS[prep](T.mk(t)), t))
    lefts = [("'a'", mo.Atom('a'), A('a')), ('(a->b)', T.mk(C('a', 'b')), C('a', 'b'))]
    seen = {(t, H.deep_flags(o)) for _, o, t in pool}
    level = list(pool)
    for depth in (1, 2) if tier == 'quick' else (1, 2, 3):
        new = []
        partners = pool[:2] + lefts
        for name, obj, t in level:
            for op_id, kinds in opl:
                if len(kinds) == 1:
                    tuples = [((name, obj, t),)]
                elif len(kinds) == 2:
                    tuples = [((name, obj, t), p) for p in partners + [(name, obj, t)]] + \
                        [(p, (name, obj, t)) for p in pool[:2]]
                else:
                    tuples = [((name, obj, t), lefts[0], lefts[0])]
                for tup in tuples:
                    tv = [x[2] for x in tup]
                    if not all(ops.fits(k, x) for k, x in zip(kinds, tv)):
                        continue
                    if op_id in SKIP_BIG and len(tv[0][1]) > 3:
                        continue
                    how = lambda: '[{}] {}({})'.format(prep, op_id, ', '.join(x[0] for x in tup))
                    res, tr = verify_op(ctx, op_id, H.EXTRA_OR_OP(op_id), [x[1] for x in tup], tv, how)
                    if res is None or tr[0] not in 'sm' or len(tr[1]) > 6:
                        continue
                    k = (tr, H.deep_flags(res))
                    if k not in seen:
                        seen.add(k)
                        new.append((how(), res, tr))
        for n, o, t in new:
            ctx.state((t, H.deep_flags(o)))
        level = new
    for name, obj, t in pool + level:
        for q in QN:
            drive.QUERY[q](obj)
        bad = T.deep_unsound(obj, t)
        if bad:
            ctx.fail('{} then queried: {}'.format(name, bad[0]))
    ctx.trace()


# 3. larger values ---------------------------------------------------------------------------------------
def gen_scaled(tier):
    for n in [x for x in U.SIZES if x <= 33] + [64, 65, 100, 128]:
        row, mrow, f = U.row_clan(n), U.row_mclan(n), U.func_rel(n)
        odd = [RP(('c0', 'x')), RP(('c0', 'x'), ('c0', 'y'), ('c1', 'z')), EMPTY, RP(('c0', 'x'), ('c1', EMPTY)),
               RP(('c0', 'c0'), ('c1', 'c0'))]
        for prep in ('fresh', 'shallow'):
            for x in odd:
                yield ('clan', prep, row, S(x))
                yield ('clan', prep, S(x), row)
                yield ('mclan', prep, mrow, M({x: 2}))
                yield ('mclan', prep, M({x: 2}), mrow)
                yield ('clan1', prep, ops.s_union(row, S(x)))
                yield ('mclan1', prep, ops.m_add(mrow, M({x: 2})))
                yield ('set', prep, row, S(x))
            yield ('set', prep, row, S('a'))
            yield ('set', prep, f, S('a'))
            yield ('set', prep, f, S(EMPTY))
            for r in (f, RP(('k0', 'x')), RP(('x', 1000)), RP(('zz', 'x')), RP(('k0', EMPTY)), RP((1000, 'k0'))):
                yield ('rel', prep, f, r)
                yield ('rel', prep, r, f)
                yield ('rel1', prep, ops.s_union(f, r))


def run_scaled(case, ctx):
    sig, prep, args = case[0], case[1], case[2:]
    kinds = (sig[:-1],) if sig.endswith('1') else (sig, sig)
    for op_id, kk in all_ops():
        ok = len(kk) == len(args) and all(ops.fits(k, t) for k, t in zip(kk, args)) and \
            (len(args) == 1 or kk[0] == kinds[0])
        if not ok or op_id in SKIP_BIG or op_id in ('x.labeled', 'x.labeled-mset'):
            continue
        if 'cross' in op_id and max(len(a[1]) for a in args) > 40:
            continue
        objs = [drive.PREPS[prep](T.mk(t)) for t in args]
        res, tr = verify_op(ctx, op_id, H.EXTRA_OR_OP(op_id), objs, args,
                            lambda: '{}({}) [{}]'.format(op_id, ', '.join(T.show(a)[:300] for a in args), prep))
        if res is not None:
            ctx.state((op_id, tr, T.flag_vector(res)))
    ctx.trace()


# 4. values the constructors of relations, clans and multiclans make ------------------------------------------
def gen_made(tier):
    vals = ['a', 1, 'z']
    for k in range(0, 4):
        for ls in itertools.combinations(['a', 'b', 1], k):
            for rs in itertools.product(vals, repeat=k):
                yield ('from_dict', tuple(zip(ls, rs)))
                yield ('rows', tuple(zip(ls, rs)))
        for vs in itertools.product(['a', 1, True, 1.0, None], repeat=k):
            yield ('values', vs)


def run_made(case, ctx):
    kind, data = case
    made = []
    if kind == 'from_dict':
        for d in [dict(data)] + [d for d, _ in drive.twin_dicts(data, ('a', 1, 'z'))]:
            for fn in (relations.from_dict, clans.from_dict, multiclans.from_dict):
                made.append(('{}.from_dict({})'.format(fn.__module__, d), fn(d)))
    elif kind == 'rows':
        import io, json
        from algebraixlib.import_export import csv as ccsv, json as cjson, xml as cxml
        names = ['c{}'.format(k) for k, _ in data]
        text = ','.join(names) + '\n' + ','.join(str(v) for _, v in data) + '\n'
        for kw in ({}, {'index_column': 'i'}, {'has_dup_rows': True}):
            for rows in (1, 2):
                if data:
                    made.append(('import_csv({!r}, {})'.format(text, kw),
                                 ccsv.import_csv(io.StringIO(text + (text.split('\n')[1] + '\n') * (rows - 1)), **kw)))
        doc = {n: v for n, (_, v) in zip(names, data)}
        for d in (doc, {'x': doc}, {'x': [doc]}, {'x': [doc, {'y': 1}], 'y': doc}):
            made.append(('import_json({})'.format(d), cjson.import_json(io.StringIO(json.dumps(d)))))
        for row in ('<r>{}</r>', '<r>{0}{0}</r>', '<r><q>{}</q><q>{}</q></r>', '<r a="1">{}</r>'):
            x = row.replace('{0}', '{}').format(*[''.join('<{0}>{1}</{0}>'.format(n, v) for n, (_, v) in zip(names, data))] * row.count('{'))
            for kw in ({}, {'convert_numerics': True}):
                made.append(('import_xml({!r}, {})'.format(x, kw), cxml.import_xml(io.StringIO(x), **kw)))
    else:
        for conv in (lambda v: v, mo.Atom):
            vs = [conv(v) for v in data]
            for left in ('L', 'a', 1):
                made.append(('clans.from_set({!r}, *{})'.format(left, vs), clans.from_set(left, *vs)))
            for fn in (relations.diag, clans.diag, multiclans.diag):
                made.append(('{}.diag(*{})'.format(fn.__module__, vs), fn(*vs)))
                made.append(('{}.diag(*{}) unchecked'.format(fn.__module__, vs), fn(*map(mo.auto_convert, vs), _checked=False)))
    for what, obj in made:
        ctx.step()
        if not isinstance(obj, mo.MathObject):
            continue
        t = T.term(obj)
        bad = T.deep_unsound(obj, t)
        for q in QN:
            drive.QUERY[q](obj)
        bad = bad or T.deep_unsound(obj, t)
        if bad:
            ctx.fail('{}: {}'.format(what, bad[0]))
        ctx.state((t, H.deep_flags(obj)))
    ctx.outcome(kind)
    ctx.trace()


FAMILIES = [
    Family('operations-in-cache-states', gen_states, run_states, block=8),
    Family('everything-known', gen_saturated, run_saturated, block=16),
    Family('partly-absolute', gen_mixed, run_saturated, block=16),
    Family('medium', gen_medium, run_saturated, block=8),
    Family('histories', gen_hist, run_hist),
    Family('scaled', gen_scaled, run_scaled),
    Family('constructed', gen_made, run_made),
]
