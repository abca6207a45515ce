"""Explicit-state exploration of the lazily computed property cache.

A *recipe* is a reproducible history that yields one real object:

    ('base', term)                     a fresh object
    ('q', query, recipe)               the same object after a query
    ('op', op_id, (recipe, ...))       the result of an operation
    ('same', ...)                      see build(): equal sub-recipes yield one shared object if alias=True

The state of an object is (value, public cached flags of it and of everything inside it).
"""
from . import drive, ops, terms as T


def deep_flags(obj):
    """The observable cache state of an object and its parts, in the order of the parts' values."""
    ch = T.children(obj)
    if not ch:
        return T.flag_vector(obj)
    return (T.flag_vector(obj),) + tuple(
        f for _, f in sorted((T.key(T.term(c)), deep_flags(c)) for c in ch if T.children(c)))


def build(recipe):
    tag = recipe[0]
    if tag == 'base':
        return T.mk(recipe[1])
    if tag == 'q':
        obj = build(recipe[2])
        ALL_QUERIES[recipe[1]](obj)
        return obj
    if tag == 'op':
        return EXTRA_OR_OP(recipe[1])(*[build(r) for r in recipe[2]])
    raise AssertionError(recipe)


def value(recipe):
    """The base value if the recipe only queries, else None."""
    while recipe[0] == 'q':
        recipe = recipe[2]
    return recipe[1] if recipe[0] == 'base' else None


ALL_QUERIES = dict(drive.QUERIES)


def _alg(alg, name):
    import importlib
    m = importlib.import_module('algebraixlib.algebras.' + alg)
    return lambda o: getattr(m, name)(o)


PROPS = ('functional', 'right_functional', 'reflexive', 'symmetric', 'transitive')
for _p in PROPS:
    ALL_QUERIES['relations.is_' + _p] = _alg('relations', 'is_' + _p)
    ALL_QUERIES['clans.is_' + _p] = _alg('clans', 'is_' + _p)
    ALL_QUERIES['multiclans.is_' + _p] = _alg('multiclans', 'is_' + _p)
for _p in ('regular', 'right_regular'):
    ALL_QUERIES['clans.is_' + _p] = _alg('clans', 'is_' + _p)
    ALL_QUERIES['multiclans.is_' + _p] = _alg('multiclans', 'is_' + _p)
ALL_QUERIES['couplets.is_reflexive'] = _alg('couplets', 'is_reflexive')
for _p in ('bijective', 'equivalence_relation'):
    ALL_QUERIES['properties.is_' + _p] = _alg('properties', 'is_' + _p)
for _a in ('couplets', 'sets', 'multisets'):
    ALL_QUERIES[_a + '.is_member'] = _alg(_a, 'is_member')


# What every query must answer, as a function of the value alone.
def expected(q, t):
    f = T.facts(t)
    if q in ('rel', 'clan', 'mclan'):
        return f[{'rel': 'relation', 'clan': 'clan', 'mclan': 'multiclan'}[q]]
    if q == 'absrel':
        return T.abs_rel(t)
    if q == 'absclan':
        return T.abs_clan(t)
    if q == 'absmclan':
        return T.abs_mclan(t)
    if q == 'abscpl':
        return T.abs_couplet(t)
    if q == 'absset':
        if t[0] != 's':
            return False
        if T.is_empty(t):
            return None         # the empty set is an absolute relation and clan; as a set: left open
        return all(e[0] == 'a' for e in t[1])
    if q == 'absmset':
        if t[0] != 'm':
            return False
        if T.is_empty(t):
            return None
        return all(e[0] == 'a' for e, _ in t[1])
    short = {'func': 'functional', 'rfunc': 'right_functional', 'refl': 'reflexive', 'sym': 'symmetric',
             'trans': 'transitive', 'reg': 'regular', 'rreg': 'right_regular'}
    if q in short:
        v = f[short[q]]
        return T.UNDEF if v is None else v
    alg, name = q.split('.')
    if name == 'is_member':
        return t[0] == {'couplets': 'c', 'sets': 's', 'multisets': 'm'}[alg]
    prop = name[3:]
    if alg == 'couplets':
        return f['reflexive'] if t[0] == 'c' else T.UNDEF
    if alg == 'properties':
        parts = {'bijective': ('functional', 'right_functional'),
                 'equivalence_relation': ('symmetric', 'transitive', 'reflexive')}[prop]
        vals = [f[p] for p in parts]
        if any(v is None for v in vals):
            # the documented result is undef if one of the properties is not defined, but a property
            # that is decided to be false first may win
            return T.UNDEF if vals[0] is None else None
        return all(vals)
    applies = {'relations': f['relation'], 'clans': f['clan'], 'multiclans': f['multiclan']}[alg]
    return f[prop] if applies else T.UNDEF


def ask(ctx, q, obj, t, how=''):
    """Ask one query and judge the answer."""
    want = expected(q, t)
    ctx.step()
    got = drive.read(ALL_QUERIES[q](obj))
    if want is None or (T.ambiguous(t) and want is not got and T.UNDEF in (want, got)):
        return got
    if got is not want:
        ctx.fail('query {} of {} answers {}, by definition it is {}{}'.format(
            q, T.show(t), drive.shown(got), drive.shown(want), how))
    return got


def check_object(ctx, obj, t, how):
    try:
        now = T.term(obj)
    except T.Malformed as e:
        ctx.fail('{}: {}'.format(how() if callable(how) else how, e))
    if now != t:
        ctx.fail('{}: value changed from {} to {}'.format(how() if callable(how) else how, T.show(t), T.show(now)))
    bad = T.deep_unsound(obj, t)
    if bad:
        ctx.fail('{}: {}'.format(how() if callable(how) else how, bad[0]))


def known_kept(before, after):
    """Cached statuses are write-once: a known status never changes."""
    return all(b == 0 or b == a for b, a in zip(before, after))


def query_states(t, queries, limit=None, base=None):
    """Breadth-first search over all sequences of queries on the value ``t``, to the fixpoint.

    Returns [(recipe, deep flags)], simplest first, one per distinct state."""
    start = base or ('base', t)
    obj = build(start)
    seen = {deep_flags(obj): start}
    order = [(start, deep_flags(obj))]
    i = 0
    while i < len(order):
        rec, fl = order[i]
        i += 1
        if limit and len(order) >= limit:
            break
        for q in queries:
            obj = build(rec)
            ALL_QUERIES[q](obj)
            fl2 = deep_flags(obj)
            if fl2 not in seen:
                seen[fl2] = ('q', q, rec)
                order.append((seen[fl2], fl2))
    return order


def show(recipe):
    tag = recipe[0]
    if tag == 'base':
        return T.show(recipe[1])
    if tag == 'q':
        return '{}?{}'.format(show(recipe[2]), recipe[1])
    return '{}({})'.format(recipe[1], ', '.join(show(r) for r in recipe[2]))


# -- further operations whose results carry cached flags ---------------------------------------------
def _extras():
    import io
    import algebraixlib.mathobjects as mo
    import algebraixlib.partition as partition
    import algebraixlib.extension as extension
    from algebraixlib.algebras import clans, multiclans, relations, sets
    from algebraixlib.util import rdf

    def first(pred_count):
        def sel():
            n = [0]

            def f(_e):
                n[0] += 1
                return n[0] % pred_count
            return f
        return sel
    A = mo.Atom
    return {
        'x.restrict2': (('set',), lambda s: sets.restrict(s, first(2)())),
        'x.restrict-all': (('set',), lambda s: sets.restrict(s, lambda e: True)),
        'x.partition-card': (('set',), lambda s: partition.partition(
            s, lambda e: e.cardinality if e.is_set else 'x')),
        'x.partition-mset': (('mset',), lambda s: partition.partition(
            s, lambda e: e.cardinality if e.is_set else 'x')),
        'x.labeled': (('set',), lambda s: partition.make_labeled_partition(s, lambda e: repr(e)[:8])),
        'x.labeled-mset': (('mset',), lambda s: partition.make_labeled_partition(s, lambda e: repr(e)[:8])),
        'x.getitem-a': (('any',), lambda o: o['a']),
        'x.getitem-1': (('any',), lambda o: o[1]),
        'x.call-a': (('any',), lambda o: o('a')),
        'x.left-set': (('any',), lambda o: o.get_left_set()),
        'x.right-set': (('any',), lambda o: o.get_right_set()),
        'x.project-a': (('clan',), lambda o: clans.project(o, 'a')),
        'x.mproject-a': (('mclan',), lambda o: multiclans.project(o, 'a')),
        'x.defined-a': (('clan',), lambda o: clans.defined_at(o, 'a')),
        'x.mdefined-a': (('mclan',), lambda o: multiclans.defined_at(o, 'a')),
        'x.rdefined-a': (('rel',), lambda o: relations.defined_at(o, 'a')),
        'x.rights-a': (('rel',), lambda o: relations.get_rights_for_left(o, 'a')),
        'x.mrights-a': (('mclan',), lambda o: multiclans.get_rights_for_left(o, 'a')),
        'x.slice': (('mclan',), lambda o: multiclans.order_slice(
            o, lambda a, b: A(repr(a) < repr(b)), A(1), A(2))),
        'x.slice-all': (('mclan',), lambda o: multiclans.order_slice(
            o, lambda a, b: A(repr(a) < repr(b)), A(0), A(100))),
        'x.unary-id': (('set',), lambda s: extension.unary_extend(s, lambda e: e)),
        'x.unary-mid': (('mset',), lambda s: extension.unary_multi_extend(s, lambda e: e)),
        'x.match': (('clan',), lambda g: rdf.match_and_project(g, {'a': 1}, {'a': '?x', 'b': '?y'})),
        'x.match-all': (('clan',), lambda g: rdf.match_and_project(g, {}, {'a': '?x'})),
        'x.wrap': (('any',), lambda o: mo.Set(o)),
        'x.wrap2': (('any',), lambda o: mo.Multiset({o: 2})),
        'x.add-couplet': (('rel',), lambda r: relations.functional_add(r, mo.Couplet('new', 'a'))),
    }


_cache = {}


def extras():
    if not _cache:
        _cache.update(_extras())
    return _cache


def EXTRA_OR_OP(op_id):
    if op_id.startswith('x.'):
        return extras()[op_id][1]
    return ops.BY_ID[op_id].fn
