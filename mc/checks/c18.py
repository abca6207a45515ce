"""C18: matching, projecting and joining RDF graphs and tables selects exactly the solutions."""
import itertools

import algebraixlib.mathobjects as mo
import algebraixlib.util.rdf as rdf

from .. import drive, history as H, ops, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S, SI

PROPERTY = 'C18'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all graphs with <= 3 of 12 triples (colliding atoms, relations as objects) with all 6^3 argument triples of triple_match '
             '(ignored, value, absent value, variables of both spellings, empty string); all tables with <= 2 of 9 rows with all patterns of <= 2 and all '
             'projections of <= 3 entries (shared and swapped names included); joins of all pairs and triples of 20 tables of solutions and of the '
             'matches themselves and of up to 12 operands, also in chains where each shares a name with the next; recognition of triples and graphs on ~290 values; every value fresh, queried and rebuilt; graphs up to 600 triples',
    'thorough': 'graphs with <= 4 of 12 triples, tables with <= 3 of 9 rows',
}


def triple(s, p, o):
    return RP(('s', s), ('p', p), ('o', o))


NODES, PREDS, OBJS = ['x', 'y'], ['x', 'p'], [A('x'), A(1), A(True)]
TRIPLES = [triple(s, p, o) for s in NODES for p in PREDS for o in OBJS]
PREPS = ['fresh', 'warm', 'rebuilt']


def ref_match(table, pattern, projection):
    """table: set term; pattern: couplet terms; projection: [(left, new name)]"""
    pat = frozenset(pattern)
    out = set()
    for row in table[1]:
        if pat <= row[1]:
            out.add(SI(('c', new, e[2]) for e in row[1] for left, new in projection if e[1] == left))
    return SI(out)


def is_triple(t):
    return T.is_rel(t) and len(t[1]) == 3 and T.lefts(t) == {A('s'), A('p'), A('o')}


def is_graph(t):
    return T.is_clan(t) and bool(t[1]) and all(is_triple(r) for r in t[1])


def obj_of(t, prep):
    return drive.PREPS[prep](T.mk(t))


# -- triple_match -------------------------------------------------------------------------------------
def args_of(pos):
    vals = {'s': [A('x'), A('nope')], 'p': [A('p'), A('x')], 'o': [A(1), A(True)]}[pos]
    return [('none', None), ('var', '?' + pos), ('var', '$v-' + pos + '?'), ('py', vals[0]), ('mo', vals[1]), ('py', A(''))]


def gen_match(tier):
    hi = 3 if tier == 'quick' else 4
    for n in range(1, hi + 1):
        for c in itertools.combinations(range(len(TRIPLES)), n):
            yield c


def run_match(case, ctx):
    t = SI(TRIPLES[i] for i in case)
    objs = [(p, T.mk(t) if p == 'fresh' else obj_of(t, p)) for p in PREPS[(len(case) == 3) + (len(case) > 3):]]
    if len(case) == 3:
        objs = [('rebuilt', obj_of(t, 'rebuilt'))] if sum(case) % 2 else [('warm', obj_of(t, 'warm'))]
    for i, combo in enumerate(itertools.product(args_of('s'), args_of('p'), args_of('o'))):
        pattern, projection, args = [], [], []
        for left, (how, v) in zip('spo', combo):
            if how == 'none':
                args.append(None)
            elif how == 'var':
                projection.append((A(left), A(v)))
                args.append(v)
            else:
                pattern.append(('c', A(left), v))
                args.append(T.mk(v) if how == 'mo' else v[2])
        want = ref_match(t, pattern, projection)
        for prep, obj in objs:
            if prep == 'fresh':
                obj = T.mk(t, i % 2)
            if i % 3 == 0:
                got = rdf.triple_match(obj, *args)
            else:
                got = rdf.triple_match(rdf_graph=obj, subject=args[0], predicate=args[1], object_=args[2])
            drive.judge(ctx, lambda: 'triple_match({}, {}) {}'.format(T.show(t), args, prep), got, want)
        ctx.outcome(len(want[1]))
    for prep, obj in objs:
        H.check_object(ctx, obj, t, 'graph after matching')
    ctx.state(T.key(t))
    ctx.trace()


# -- match_and_project, pattern_match ----------------------------------------------------------------------
ROWS = [EMPTY, RP(('a', 1)), RP(('a', 1), ('b', 2)), RP(('a', True), ('b', 2)), RP(('a', 1), ('a', 2)), RP(('b', 1), ('a', 2)),
        RP(('a', 1), ('b', 2), ('c', 3)), RP(('a', RP(('a', 1))), ('b', EMPTY)), RP((1, 'a'), (True, 'b'))]
PATS = [('a', 1), ('a', True), ('b', 2), ('b', EMPTY), (1, 'a'), ('z', 1)]
PROJS = [('a', 'a'), ('a', 'x'), ('b', 'x'), ('b', 'a'), (1, 'x'), ('c', 'y'), ('z', 'z')]


def dicts(entries, hi):
    """All dictionaries (one value per key) with at most ``hi`` of the entries."""
    for n in range(hi + 1):
        for c in itertools.combinations(entries, n):
            keys = [(type(k), k) for k, _ in c]
            if len(set(keys)) == len(keys) and len({k for k, _ in c}) == len(c):
                yield c


def gen_project(tier):
    hi = 2 if tier == 'quick' else 3
    for n in range(hi + 1):
        for c in itertools.combinations(range(len(ROWS)), n):
            yield c


def py(v):
    return T.mk(v) if isinstance(v, tuple) else v


def run_project(case, ctx):
    t = SI(ROWS[i] for i in case)
    objs = [(p, obj_of(t, p)) for p in PREPS]
    k = sum(case)
    for pat in dicts(PATS, 2):
        pterm = [C(l, r) for l, r in pat]
        pdict = {py(l): py(r) for l, r in pat}
        want = SI(r for r in t[1] if frozenset(pterm) <= r[1])
        for prep, obj in objs:
            drive.judge(ctx, lambda: 'pattern_match({}, {}) {}'.format(T.show(t), pdict, prep), rdf.pattern_match(obj, pdict), want)
        for pro in dicts(PROJS, 3):
            k += 1
            prodict = dict(pro)
            want = ref_match(t, pterm, [(A(l), A(n)) for l, n in pro])
            prep, obj = objs[k % len(objs)]
            if pat or k % 2:
                got = rdf.match_and_project(obj, pdict, prodict)
            else:
                got = rdf.match_and_project(obj, projection=prodict)
            drive.judge(ctx, lambda: 'match_and_project({}, {}, {}) {}'.format(T.show(t), pdict, prodict, prep), got, want)
            if pdict != {py(l): py(r) for l, r in pat} or prodict != dict(pro):
                ctx.fail('match_and_project changed its arguments')
        drive.judge(ctx, lambda: 'match_and_project({}, {}) '.format(T.show(t), pdict),
                    rdf.match_and_project(objs[k % 3][1], pdict), ref_match(t, pterm, []))
    drive.judge(ctx, 'match_and_project of one argument', rdf.match_and_project(objs[0][1]), ref_match(t, [], []))
    for prep, obj in objs:
        H.check_object(ctx, obj, t, 'table after matching')
    ctx.state(T.key(t))
    ctx.trace()


# -- join -------------------------------------------------------------------------------------------------
def gen_many(tier):
    for n in range(4, 13 if tier == 'quick' else 25):
        for k in range(n):
            yield (n, k)


def run_many(case, ctx):
    """Joins of many operands, one of which decides."""
    n, k = case
    cols = ['c{}'.format(i) for i in range(n)]
    other = cols[0] if k else cols[-1]
    for deciding in (EMPTY, S(EMPTY), S(RP((cols[k], 1)), RP((cols[k], 2))), S(RP((other, 2))), S(RP((other, 1), (cols[k], 5)), RP((other, 2))),
                     S(RP(('x', 1)), RP(('x', 2), (other, 1)), RP((other, 3)))):
        parts = [S(RP((c, 1))) for c in cols]
        parts[k] = deciding
        for prep in PREPS:
            objs = [obj_of(t, prep) for t in parts]
            drive.judge(ctx, lambda: 'join of {} [{}]'.format([T.show(t) for t in parts], prep), rdf.join(*objs), ref_join(parts), 2)
    # a chain of tables of several rows that share a column with the next one
    for sizes in ([n - i for i in range(n)], [i + 1 for i in range(n)], [5] * n, [5 + (i == k) for i in range(n)], [2 + (i + k) % 4 for i in range(n)], [4 - 3 * (i == k) for i in range(n)]):
        parts = [SI(RP(('k{}'.format(i), v), ('k{}'.format(i + 1), v)) for v in range(r)) for i, r in enumerate(sizes)]
        for order in (parts, parts[::-1]):
            objs = [obj_of(t, 'fresh') for t in order]
            drive.judge(ctx, lambda: 'join of a chain of tables with {} rows'.format(sizes), rdf.join(*objs), ref_join(order), 2)
    ctx.state(case)
    ctx.trace()


SOLS = [EMPTY, S(EMPTY), S(RP(('x', 1))), S(RP(('x', 1)), RP(('x', 2))), S(RP(('x', 1)), RP(('x', True))), S(RP(('y', 1))), S(RP(('y', 1)), RP(('y', 2))),
        S(RP(('x', 1), ('y', 1))), S(RP(('x', 1), ('y', 1)), RP(('x', 2), ('y', 1))), S(RP(('x', 1), ('y', 1)), RP(('x', 1), ('y', 2))),
        S(RP(('x', 1), ('y', 2)), RP(('x', 2), ('y', 1))), S(RP(('x', 1), ('y', 2)), RP(('y', 1))), S(RP(('x', 2)), EMPTY),
        S(RP(('y', 2), ('z', 3)), RP(('y', 1), ('z', 3))), S(RP(('y', 2), ('z', 3)), RP(('y', 2), ('z', 4))), S(RP(('z', 3))), S(RP(('z', 4)), RP(('z', 5))),
        S(RP(('x', 1), ('z', 3)), RP(('x', 2), ('z', 4))), S(RP(('x', 1), ('y', 1), ('z', 3))), S(RP(('x', 1)), RP(('y', 1)), RP(('z', 3)))]


def ref_join(parts):
    out = {frozenset()}
    for p in parts:         # (a part of a function is a function)
        out = {u | r[1] for u in out for r in p[1]}
        out = {u for u in out if len({e[1] for e in u}) == len(u)}
    return SI(SI(u) for u in out)


def gen_join(tier):
    for a, b in itertools.product(range(len(SOLS)), repeat=2):
        yield (a, b)


def run_join(case, ctx):
    a, b = case
    objs = {i: obj_of(SOLS[i], PREPS[(i + a + b) % 3]) for i in range(len(SOLS))}
    for prep in PREPS:
        for order in (0, 1):
            x, y = (drive.PREPS[prep](T.mk(SOLS[i], order)) for i in (a, b))
            if a == b and order:
                y = x
            drive.judge(ctx, lambda: 'join({}, {}) {}'.format(T.show(SOLS[a]), T.show(SOLS[b]), prep), rdf.join(x, y), ref_join([SOLS[a], SOLS[b]]), 2)
    for c in range(len(SOLS)):
        drive.judge(ctx, lambda: 'join of {}'.format([T.show(SOLS[i]) for i in (a, b, c)]), rdf.join(objs[a], objs[b], objs[c]), ref_join([SOLS[i] for i in (a, b, c)]))
        if (a + b + c) % 3 == 0:
            for d in (a, c, 9, 13):
                drive.judge(ctx, lambda: 'join of {}'.format([T.show(SOLS[i]) for i in (a, b, c, d)]),
                            rdf.join(objs[a], objs[b], objs[c], objs[d]), ref_join([SOLS[i] for i in (a, b, c, d)]))
    ctx.state(case)
    ctx.trace()


def gen_query(tier):
    for n in (1, 2, 3):
        for i, c in enumerate(itertools.combinations(range(len(TRIPLES)), n)):
            yield c


QUERIES = [((None, '?p', '?x'), (None, '?q', '?x')), (('?x', 'p', None), ('x', None, '?x')), (('?x', None, '?y'), ('?y', None, '?z')),
           (('?a', '?p', 1), ('?b', '?p', True)), (('?a', '?b', '?c'), ('?c', '?b', '?a'))]


def run_query(case, ctx):
    """Two matches joined: the basic graph pattern evaluated directly."""
    t = SI(TRIPLES[i] for i in case)
    obj = obj_of(t, PREPS[sum(case) % 3])
    for q in QUERIES:
        sols, refs = [], []
        for pat in q:
            sols.append(rdf.triple_match(obj, *pat))
            pro = [(A(l), A(v)) for l, v in zip('spo', pat) if isinstance(v, str) and v[0] == '?']
            refs.append(ref_match(t, [C(l, v) for l, v in zip('spo', pat) if v is not None and not (isinstance(v, str) and v[0] == '?')], pro))
        drive.judge(ctx, lambda: 'join of the matches {} of {}'.format(q, T.show(t)), rdf.join(*sols), ref_join(refs), 2)
        drive.judge(ctx, lambda: 'join of the matches {} of {}'.format(q, T.show(t)), rdf.join(*(sols + sols[::-1])), ref_join(refs), 2)
    ctx.state(('q', case))
    ctx.trace()


# -- recognition ------------------------------------------------------------------------------------------
def recognisable():
    vals = list(U.structured()) + TRIPLES
    near = [RP(('s', 1), ('p', 2)), RP(('s', 1), ('p', 2), ('o', 3), ('o', 4)), RP(('s', 1), ('p', 2), ('p', 3)), RP(('s', 1), ('p', 2), ('o', 3), ('x', 4)),
            RP(('s', 1), ('p', 2), ('O', 3)), RP(('s', RP(('s', 1))), ('p', 2), ('o', 3)), RP(('s', 1), ('p', 2), ('o', S(1))), RP(('s', 1), ('p', C(1, 2)), ('o', 3)), EMPTY,
            RP(('s', 1), ('p', 2), ('o', M({3: 1})))]
    vals += near + [M({e: 2 for e in near[0][1]}), ('m', frozenset((e, 1) for e in TRIPLES[0][1])), ('m', frozenset([(TRIPLES[0], 1)]))]
    vals += [SI(x) for x in itertools.combinations(near + TRIPLES[:3], 1)] + [SI(x) for x in itertools.combinations(near + TRIPLES[:4], 2)] + \
            [SI(x) for x in itertools.combinations(near[:6] + TRIPLES[:3], 3)]
    vals += [S(SI(TRIPLES[:2])), RP(('s', SI(TRIPLES[:1])), ('p', 2), ('o', 3)), C('s', 'p'), S('s', 'p', 'o')]
    return U.uniq(vals)


def gen_recognise(tier):
    for t in recognisable():
        yield (t,)


def run_recognise(case, ctx):
    t, = case
    tri, gra = is_triple(t), is_graph(t)
    want = {'is_triple': tri, 'is_absolute_triple': tri and T.abs_rel(t), 'is_graph': gra, 'is_absolute_graph': gra and T.abs_clan(t)}
    for prep in ['fresh', 'warm', 'shallow', 'rebuilt'] + ['q:' + n for n, _ in drive.QUERIES]:
        for names in (list(want), list(want)[::-1]):
            obj = drive.PREPS[prep](T.mk(t))
            for name in names + names[:1]:
                got = getattr(rdf, name)(obj)
                ctx.step()
                if got is not want[name]:
                    ctx.fail('{}({}) {} is {}, expected {}'.format(name, T.show(t), prep, got, want[name]))
            H.check_object(ctx, obj, t, 'after recognition')
    ctx.outcome(tuple(want.values()))
    if tri and not any(e[2][0] == 'undef' for e in t[1]):
        d = {e[1][2]: e[2] for e in t[1]}
        for f in (lambda v: T.mk(v), lambda v: v[2] if v[0] == 'a' else T.mk(v)):
            H.check_object(ctx, rdf.make_triple(f(d['s']), f(d['p']), f(d['o'])), t, 'make_triple')
            H.check_object(ctx, rdf.make_triple(subject=f(d['s']), predicate=f(d['p']), object_=f(d['o'])), t, 'make_triple')
    ctx.state(T.key(t))
    ctx.trace()


# -- scaled ---------------------------------------------------------------------------------------------------
def gen_scaled(tier):
    for n in [1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 200, 256, 300] + ([600] if tier == 'quick' else [600, 1000, 1024, 2000]):
        for shape in ('star', 'chain', 'mixed'):
            yield (n, shape)


def run_scaled(case, ctx):
    n, shape = case
    if shape == 'star':
        t = SI(triple('c', 'p', i) for i in range(n))
    elif shape == 'chain':
        t = SI(triple(i, 'p', i + 1) for i in range(n))
    else:
        t = SI(triple(i % 7, 'p' + str(i % 3), 'v' + str(i)) for i in range(n))
    for prep in PREPS:
        obj = obj_of(t, prep)
        for args in ((None, None, None), ('?s', '?p', '?o'), ('?s', None, None), (None, 'p', '?o'), (0, '?p', '?o'), ('c', 'p', n - 1), (3, 'p0', '?o'), (None, '?p', None)):
            pat = [C(l, v) for l, v in zip('spo', args) if v is not None and not str(v).startswith('?')]
            pro = [(A(l), A(v)) for l, v in zip('spo', args) if str(v).startswith('?')]
            drive.judge(ctx, lambda: 'triple_match on {} {} {}'.format(case, args, prep), rdf.triple_match(obj, *args), ref_match(t, pat, pro))
        if n <= 33:
            a, b = rdf.triple_match(obj, '?x', None, '?y'), rdf.triple_match(obj, '?y', None, '?z')
            ra, rb = ref_match(t, [], [(A('s'), A('?x')), (A('o'), A('?y'))]), ref_match(t, [], [(A('s'), A('?y')), (A('o'), A('?z'))])
            drive.judge(ctx, lambda: 'join on {}'.format(case), rdf.join(a, b), ref_join([ra, rb]), 2)
    ctx.state(case)
    ctx.trace()


FAMILIES = [
    Family('triple-match', gen_match, run_match),
    Family('match-and-project', gen_project, run_project),
    Family('join', gen_join, run_join, block=4),
    Family('join-of-many', gen_many, run_many, block=4),
    Family('graph-patterns', gen_query, run_query),
    Family('recognition', gen_recognise, run_recognise),
    Family('scaled', gen_scaled, run_scaled),
]
