"""C22: threads may use the same objects, and the library, at the same time."""
import importlib
import io
import itertools

import algebraixlib.mathobjects as mo
import algebraixlib.import_export.csv as ccsv
import algebraixlib.import_export.json as cjson
import algebraixlib.import_export.mojson as mojson
import algebraixlib.import_export.rdf as ierdf
import algebraixlib.import_export.xml as cxml
import algebraixlib.undef as undef
from algebraixlib.algebras import clans, couplets, multiclans, multisets, properties, relations, sets

from .. import sched

# The state of the package right after its modules were loaded, before anything was used: every
# execution starts from here, so that everything that is created on first use is created in it.
for _m in ('extension', 'partition', 'structure', 'util.html', 'util.latexprinter', 'util.mathobjectprinter', 'util.rdf', 'util.miscellaneous'):
    importlib.import_module('algebraixlib.' + _m)
INITIAL = sched.ModuleState('algebraixlib')

from .. import drive, history as H, ops, terms as T, uses        # noqa: E402 (they use the library)
from ..core import Family                                        # noqa: E402
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S                # noqa: E402

PROPERTY = 'C22'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'two threads, one operation each, on the same fresh objects (one of 12 small values of every kind) in a freshly loaded library: every schedule '
             'with one preemption at any access to possibly shared state, for all pairs of 12 core operations and every other operation of the library with '
             'itself and one of them (an assertion of functionality); every schedule with two preemptions for 11 pairs of queries, with three for all pairs of core operations on the smallest values; every operation against itself on two unrelated values; imports and exports against themselves at line granularity',
    'thorough': 'all pairs of operations with one preemption, all pairs of core operations with two',
}
ASSUMPTIONS = [
    'Threads switch only between bytecodes (the interpreter lock); single C-level operations on dict, set and list are atomic',
    'Events are the bytecodes that read or write attributes and globals that are assigned outside of constructors or hold mutable containers, '
    'that store into a subscript, or that call a mutating method: switches between other bytecodes cannot be told apart',
    'The raise level (util.miscellaneous) is one setting of the process by design and is not changed while threads run',
]

VALUES = {
    'clan': S(RP(('a', 1))), 'clan2': S(RP(('a', 1)), RP(('a', 2), ('b', 1))), 'rel': RP(('a', 1)), 'rel2': RP(('a', 'b'), ('b', 'a')),
    'mclan': M({RP(('a', 1)): 2}), 'mclan2': M({RP(('a', 1)): 2, RP(('a', 2), ('b', 1)): 1}),
    'set': S('a', 'b'), 'mset': M({'a': 2, 'b': 1}), 'cpl': C('a', 1), 'atom': A('a'), 'empty': EMPTY, 'emptym': EMPTYM, 'setclan': S(S(RP(('a', 1)))),
}
CORE = ['?rel', '?clan', '?mclan', '?func', '?reg', '?rreg', '?absclan', '?refl', 'hash', 'ground-set', 'index', 'call', 'left-set', 'repr']
PARTNERS = ['?func', 'index']


def binary(op):
    return lambda o: ops.BY_ID[op].fn(o, o)


JOBS = dict(uses.USES)
JOBS['call-a'] = (lambda t: t[0] in 'sc', lambda o: o('a'))
JOBS['index-a'] = (lambda t: t[0] in 'sm', lambda o: o['a'])
for _id, _op in ops.BY_ID.items():
    if len(_op.kinds) == 2 and _op.kinds[0] == _op.kinds[1]:
        JOBS['op:' + _id] = (None, binary(_id))
    elif len(_op.kinds) == 1:
        JOBS['op:' + _id] = (None, _op.fn)


def applies(job, t):
    if not job.startswith('op:'):
        return JOBS[job][0](t)
    kind = ops.BY_ID[job[3:]].kinds[0]
    return drive.of_kind(kind, t) if hasattr(drive, 'of_kind') else kind_ok(kind, t)


def kind_ok(kind, t):
    return {'any': True, 'set': t[0] == 's', 'mset': t[0] == 'm', 'cpl': t[0] == 'c', 'couplet': t[0] == 'c', 'rel': T.is_rel(t), 'clan': T.is_clan(t),
            'mclan': T.is_mclan(t), 'mrel': t[0] == 'm' and all(e[0] == 'c' for e, _ in t[1])}.get(kind, False)


def canon(x):
    """A result as comparable plain data."""
    if isinstance(x, undef.Undef):
        return 'undef' if x is undef.Undef() else 'another undefined value'
    if isinstance(x, mo.MathObject):
        return T.term(x)
    if isinstance(x, (list, tuple)):
        return tuple(canon(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((repr(k), canon(v)) for k, v in x.items()))
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return x
    return type(x).__name__


def outcome(result):
    r, e = result
    if e is not None:
        return ('raised', type(e).__name__, str(e)[:300])
    try:
        return ('returned', canon(r))
    except T.Malformed as m:
        return ('malformed', str(m))


_sched = []


def scheduler():
    if not _sched:
        pkg = mo.__path__[0].rsplit('mathobjects', 1)[0]
        _sched.append(sched.Scheduler(pkg, objects=[T.mk(t) for t in VALUES.values()]))
    return _sched[0]


def solo(make, n):
    """The results of the jobs when nothing else runs, each on a fresh library."""
    out, changed = [], []
    for i in range(n):
        INITIAL.restore()
        jobs, _ = make()
        try:
            r = (jobs[i](), None)
        except Exception as e:
            r = (None, e)
        out.append(outcome(r))
        changed.append(INITIAL.changed())
    INITIAL.restore()
    return out, sorted(set(itertools.chain(*changed)))


def explore(case, ctx, make, names, bound, lines=False):
    s = scheduler()
    s.set_lines(lines)
    want, changed = solo(make, len(names))
    n_before = ctx.transitions

    def fresh():
        INITIAL.restore(changed)
        return make()

    def judge(results, data, schedule):
        ctx.step()
        for (i, name), r in zip(enumerate(names), results):
            got = outcome(r)
            if got != want[i]:
                ctx.fail('thread {} ({}) with schedule {} (the other thread: {}): {}; alone it {}'.format(
                    i, name, schedule, names[1 - i], shorten(got), shorten(want[i])))
        for obj, t in data:
            H.check_object(ctx, obj, t, lambda: '{} and {} under schedule {}'.format(names[0], names[1], schedule))
        for r, _ in results:
            if isinstance(r, mo.MathObject):
                H.check_object(ctx, r, T.term(r), lambda: 'result of {} and {} under schedule {}'.format(names[0], names[1], schedule))
        bad = modules_sound()
        if bad:
            ctx.fail('after {} and {} under schedule {}: {}'.format(names[0], names[1], schedule, bad))
    n = s.explore(fresh, judge, bound, symmetric=names[0] == names[1])
    INITIAL.restore()
    ctx.state(case)
    ctx.outcome((names[0], n > 10))
    ctx.trace(n)
    return ctx.transitions - n_before


def shorten(x):
    return '{} {}'.format(x[0], str(x[1:])[:300])


def modules_sound():
    """The library is still usable: the values that were created on first use are the only ones."""
    if undef.Undef() is not undef.Undef():
        return 'there are two undefined values'
    return None


# -- one object, two threads ------------------------------------------------------------------------------
def run_pair(case, ctx):
    vname, j0, j1, bound = case
    t = VALUES[vname]

    def make():
        o = T.mk(t)
        return [lambda: JOBS[j0][1](o), lambda: JOBS[j1][1](o)], [(o, t)]
    explore(case, ctx, make, (j0, j1), bound)


def gen_core(tier):
    for v, t in VALUES.items():
        core = [j for j in CORE if applies(j, t)]
        if tier == 'quick' and v in ('clan2', 'mclan2', 'rel2', 'setclan'):
            core = [j for j in core if j in ('?rel', '?clan', '?mclan', '?func', '?rreg', 'index', 'ground-set')]
        for j0, j1 in itertools.combinations_with_replacement(core, 2):
            yield (v, j0, j1, 1)


def gen_rest(tier):
    for v, t in VALUES.items():
        if tier == 'quick' and v in ('clan2', 'mclan2', 'rel2', 'atom', 'empty', 'emptym'):
            continue
        partners = CORE if tier != 'quick' else PARTNERS[:1] if v in ('clan', 'rel', 'mclan') else []
        jobs = [j for j in JOBS if applies(j, t) and j not in CORE]
        for j in jobs:
            yield (v, j, j, 1)
            for k in partners if tier != 'quick' or j not in ('match', 'op:relations.swap', 'op:clans.lhs_cross_functional_union') else []:
                yield (v, j, k, 1)
        if tier != 'quick':
            for j0, j1 in itertools.combinations(jobs, 2):
                yield (v, j0, j1, 1)


TWO = [('rel', '?func', '?func'), ('rel', '?rel', '?func'), ('rel', '?refl', '?sym'), ('clan', '?clan', '?func'), ('mclan', '?mclan', '?rfunc'), ('set', '?rel', '?clan'),
       ('mset', '?mclan', '?mclan'), ('cpl', 'hash', '?refl'), ('atom', 'hash', 'ground-set'), ('set', 'hash', 'hash'), ('mset', 'hash', 'ground-set')]


THREE = [('empty', 'left-set', 'left-set'), ('empty', '?func', '?func'), ('atom', '?func', '?clan'), ('empty', 'call-a', 'call-a'), ('empty', 'index-a', 'left-set'),
         ('emptym', 'index-a', 'index-a'), ('emptym', 'left-set', 'left-set'), ('cpl', 'call-a', 'left-set'), ('cpl', '?refl', '?refl')]


def gen_three(tier):
    for v, a, b in THREE:
        yield (v, a, b, 3)
    for v in ('atom', 'cpl', 'empty', 'emptym') if tier == 'quick' else ('atom', 'cpl', 'empty', 'emptym', 'set', 'mset', 'rel'):
        core = [j for j in CORE if applies(j, VALUES[v])]
        for a, b in itertools.combinations_with_replacement(core, 2):
            if (v, a, b) not in THREE:
                yield (v, a, b, 3)


def gen_two(tier):
    if tier == 'quick':
        for v, a, b in TWO:
            yield (v, a, b, 2)
    else:
        for v in ('rel', 'clan', 'mclan', 'set', 'mset', 'cpl', 'atom', 'empty'):
            core = [j for j in CORE if applies(j, VALUES[v])]
            for j0, j1 in itertools.combinations_with_replacement(core, 2):
                yield (v, j0, j1, 2)


# -- two objects, used in both orders ------------------------------------------------------------------------
PAIRS = [('clan', 'clan_'), ('rel', 'rel_'), ('mclan', 'mclan_'), ('mset', 'mset'), ('set', 'clan'), ('cpl', 'cpl')]
OTHERS = {'clan_': S(RP(('b', 1))), 'rel_': RP((1, 'b')), 'mclan_': M({RP(('b', 1)): 1})}


def run_cross(case, ctx):
    v0, v1, op = case
    t0, t1 = VALUES[v0], VALUES[v1] if v1 in VALUES else OTHERS[v1]
    fn = ops.BY_ID[op].fn

    def make():
        o, p = T.mk(t0), T.mk(t1)
        return [lambda: fn(o, p), lambda: fn(p, o)], [(o, t0), (p, t1)]
    explore(case, ctx, make, (op, op + ' (swapped)'), 1)


def gen_cross(tier):
    for v0, v1 in PAIRS:
        for op in ops.BY_ID.values():
            if len(op.kinds) == 2 and kind_ok(op.kinds[0], VALUES[v0]) and kind_ok(op.kinds[1], VALUES[v0]):
                yield (v0, v1, op.id)


# -- the same operation on two values that have nothing to do with each other ----------------------------------
APART = {
    'clan': (S(RP(('a', 1))), S(RP(('b', 3), ('a', 4)))), 'mclan': (M({RP(('a', 1)): 2}), M({RP(('b', 3)): 3})),
    'rel': (RP(('a', 1)), RP((3, 'b'))), 'set': (S('a', C('b', 1)), S('c', 'd')), 'mset': (M({'a': 2}), M({'c': 1, 'd': 4})),
    'nested': (S(C('a', S('x')), 'y'), S('c', S('d', 'e'))), 'cpl': (C('a', 1), C('b', C('x', 2))),
}
TEXTS = ('repr', 'str', 'latex', 'latex-short', 'html', 'html2', 'mo_to_str', 'mo_to_str-abbr', 'json', 'hash', 'ground-set', 'sorted')
COSTLY = ('match', 'op:relations.swap', 'op:relations.rename')


def run_apart(case, ctx):
    v, job, flip = case
    t0, t1 = APART[v][::-1] if flip else APART[v]
    fn = JOBS[job][1]

    def make():
        o, p = T.mk(t0), T.mk(t1)
        return [lambda: fn(o), lambda: fn(p)], [(o, t0), (p, t1)]
    explore(case, ctx, make, (job, job + ' (other value)'), 1)


def gen_apart(tier):
    for v, (t0, t1) in APART.items():
        for job in JOBS:
            if applies(job, t0) and applies(job, t1) and not job.startswith('?') and not (tier == 'quick' and (
                    job in COSTLY or v == 'nested' and job not in TEXTS)):
                # A switch inside of either one.
                yield (v, job, False)
                if tier != 'quick':
                    yield (v, job, True)


# -- the library itself: unrelated work -----------------------------------------------------------------------
TTL = '@prefix e: <http://e/> .\ne:a e:p e:b, "x" ; e:q 1 .\n'
NEST = S(RP(('a', 1), ('b', 'x')), RP(('a', 2)))


def _csv(text, **kw):
    return lambda o: ccsv.import_csv(io.StringIO(text), **kw)


def _export(fn):
    def f(o):
        out = io.StringIO()
        fn(o, out)
        return out.getvalue()
    return f


IO = {
    'import-csv': _csv('a,b\n1,x\n2,\n'), 'import-csv2': _csv('c,d\n7,y\n,z\n', index_column='i'), 'import-csv-m': _csv('a,b\n1,x\n1,x\n', has_dup_rows=True),
    'import-csv-int': _csv('1,x\n2,y\n', columns=[1, 'z']), 'import-csv-bool': _csv('1,x\n2,y\n', columns=[True, 'z']),
    'import-csv-types': _csv('a,b\n1,x\n2,y\n', types={'a': int}),
    'export-csv': _export(ccsv.export_csv),
    'import-json': lambda o: cjson.import_json(io.StringIO('{"a": 1, "b": [{"c": 2}, {"c": 3}], "d": {"e": "x"}}')),
    'import-json2': lambda o: cjson.import_json(io.StringIO('[{"a": {"b": {"c": 1}}}, {"z": "y"}]')),
    'import-xml': lambda o: cxml.import_xml(io.StringIO('<r a="1"><x>2</x><y b="c">t</y></r>')),
    'import-xml2': lambda o: cxml.import_xml(io.StringIO('<q><x>7</x><x>8</x></q>'), True),
    'mojson-out': lambda o: __import__('json').dumps(o, cls=mojson.ExportJson),
    'mojson-in': lambda o: mojson.import_json(MOJSON[0]),
    'import-graph': lambda o: ierdf.import_graph(io.StringIO(TTL), rdf_format='turtle'),
    'table-csv': uses._table('csv'), 'table-json': uses._table('json'),
    'latex': uses._latex(False), 'latex-short': uses._latex(True),
}
MOJSON = []


def setup_io(tier):
    if not MOJSON:
        MOJSON.append(__import__('json').dumps(T.mk(S(RP(('k', 1), ('l', (1, 2))))), cls=mojson.ExportJson))
        INITIAL.restore()


def run_io(case, ctx):
    j0, j1, lines = case

    def make():
        o = T.mk(NEST)
        return [lambda: IO[j0](o), lambda: IO[j1](o)], [(o, NEST)]
    explore(case, ctx, make, (j0, j1), 1, lines=lines)


def gen_io(tier):
    for j in IO:
        yield (j, j, True)
    for a, b in (('import-csv', 'import-csv2'), ('import-csv-int', 'import-csv-bool'), ('import-json', 'import-json2'), ('import-xml', 'import-xml2'), ('mojson-in', 'mojson-out'),
                 ('export-csv', 'import-csv'), ('table-json', 'table-csv'), ('latex', 'latex-short')):
        yield (a, b, True)
        if tier != 'quick':
            yield (a, b, False)
    if tier != 'quick':
        for a, b in itertools.combinations(IO, 2):
            yield (a, b, True)


# -- interleaved iterators: every interleaving of their steps ---------------------------------------------------
def listing(n, asc=True):
    def f(o):
        def less(a, b):
            x, y = a('a').value, b('a').value
            return mo.Atom(x < y if asc else x > y)
        return multiclans.order_slice_to_listgen(o, less, mo.Atom(n), mo.Atom(4 - n), )
    return f


ITERS = {
    'listgen0': listing(0), 'listgen1': listing(1), 'listgen-desc': listing(0, False),
    'iter': iter, 'sorted': lambda o: iter(sorted(o)), 'nested': lambda o: (c for r in o for c in r),
}
ITER_VALUES = {
    'mclan': M({RP(('a', 1), ('b', 1)): 2, RP(('a', 2), ('b', 1)): 1, RP(('a', 3), ('b', 2)): 1}),
    'clan': S(RP(('a', 1)), RP(('a', 2)), RP(('a', 3), ('b', 2))),
}
BETWEEN = ['hash', '?func', '?reg', 'ground-set', 'repr', 'left-set', 'index', 'sorted', 'latex']


def drain(it):
    out = []
    for x in it:
        out.append(canon(x))
    return out


def gen_iter(tier):
    for v in ITER_VALUES:
        names = [n for n in ITERS if v == 'mclan' or not n.startswith('listgen')]
        for a, b in itertools.combinations_with_replacement(names, 2):
            yield (v, a, b, None)
        for a in names:
            for use in BETWEEN:
                yield (v, a, None, use)


def run_iter(case, ctx):
    v, a, b, use = case
    t = ITER_VALUES[v]
    want_a = drain(ITERS[a](T.mk(t)))
    if use is not None:
        for k in range(len(want_a) + 1):        # the use between any two steps
            o = T.mk(t)
            it = ITERS[a](o)
            got = [canon(next(it)) for _ in range(k)]
            JOBS[use][1](o)
            got += drain(it)
            ctx.step()
            if got != want_a:
                ctx.fail('iterating by {} with {} after {} steps yields {}, otherwise {}'.format(a, use, k, got, want_a))
            H.check_object(ctx, o, t, lambda: str(case))
        ctx.trace(len(want_a) + 1)
    else:
        want_b = drain(ITERS[b](T.mk(t)))
        n, m = len(want_a) + 1, len(want_b) + 1
        for pos in itertools.combinations(range(n + m), n):
            pos = set(pos)
            o = T.mk(t)
            its, gots = (ITERS[a](o), ITERS[b](o)), ([], [])
            for i in range(n + m):
                k = 0 if i in pos else 1
                x = next(its[k], None)
                if x is not None:
                    gots[k].append(canon(x))
            ctx.step()
            if gots[0] != want_a or gots[1] != want_b:
                ctx.fail('interleaving {} and {} (first at {}) yields {} and {}, alone {} and {}'.format(a, b, sorted(pos), gots[0], gots[1], want_a, want_b))
            H.check_object(ctx, o, t, lambda: str(case))
            ctx.trace()
    ctx.state(case)
    ctx.outcome((a, b, use))


FAMILIES = [
    Family('core', gen_core, run_pair),
    Family('rest', gen_rest, run_pair),
    Family('two-preemptions', gen_two, run_pair),
    Family('three-preemptions', gen_three, run_pair),
    Family('cross', gen_cross, run_cross),
    Family('apart', gen_apart, run_apart),
    Family('io', gen_io, run_io, setup=setup_io),
    Family('iterators', gen_iter, run_iter),
]
