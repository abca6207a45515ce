"""C12: partitions are the partitions induced by the class function."""
import itertools

import algebraixlib.mathobjects as mo
import algebraixlib.partition as partition

from .. import drive, history as H, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S

PROPERTY = 'C12'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all class functions (into 3 of several label alphabets, incl. colliding Python values and mathematical objects) on '
             'all sets and multisets with <= 4 of 6 mixed elements; value-based class functions on ~450 sets, clans, multisets and '
             'multiclans in every single-query state; partitions of partitions; sizes up to 300',
    'thorough': 'all class functions on all sets with <= 5 of 7 elements and into 4 labels',
}

ELEMS = [A('a'), A(1), A(True), C('a', 'b'), S(C('a', 'b')), EMPTY, M({'a': 1})]
# label alphabets: (python values, terms they convert to)
LABELS = [
    (['x', 'y', 'z', 'w'], None),
    ([1, True, 1.0, '1'], None),
    ([mo.Atom(1), mo.Set(1), mo.Couplet(1, 2), mo.Multiset({1: 2})], [A(1), S(1), C(1, 2), M({1: 2})]),
    ([None, '', 0, False], None),
    ([mo.Atom('x'), 'x', 'y', mo.Atom('y')], [A('x'), A('x'), A('y'), A('y')]),
]


def label_terms(i):
    vals, terms = LABELS[i]
    return terms or [A(v) for v in vals]


def ref(t, cls):
    """{label: component term}"""
    groups = {}
    if t[0] == 's':
        for e in t[1]:
            groups.setdefault(cls(e), set()).add(e)
        return {k: T.SI(v) for k, v in groups.items()}
    for e, n in t[1]:
        groups.setdefault(cls(e), {})[e] = n
    return {k: T.MI(v) for k, v in groups.items()}


def check(ctx, t, obj, pyfn, cls, how):
    groups = ref(t, cls)
    for _ in range(2):
        got = partition.partition(obj, pyfn)
        ctx.step()
        H.check_object(ctx, got, T.SI(groups.values()), lambda: 'partition of {} {}'.format(T.show(t), how))
        lab = partition.make_labeled_partition(obj, pyfn)
        ctx.step()
        H.check_object(ctx, lab, T.SI(('c', k, v) for k, v in groups.items()),
                       lambda: 'labeled partition of {} {}'.format(T.show(t), how))
    H.check_object(ctx, obj, t, lambda: 'operand {} {}'.format(T.show(t), how))
    # looking up a component by its label
    for k, v in groups.items():
        ctx.step()
        comp = lab(T.mk(k))
        if T.term(comp) != v:
            ctx.fail('labeled partition of {} {} at {} is {}, expected {}'.format(T.show(t), how, T.show(k), comp, T.show(v)))
    ctx.outcome(len(groups))
    return got, groups


def bases(tier):
    k, el = (4, ELEMS[:6]) if tier == 'quick' else (5, ELEMS)
    for n in range(k + 1):
        for c in itertools.combinations(el, n):
            yield ('s', frozenset(c))
            if n:
                yield ('m', frozenset((e, 1 + i % 3) for i, e in enumerate(c)))
    yield EMPTYM


def gen_functions(tier):
    nl = 3 if tier == 'quick' else 4
    for t in bases(tier):
        n = len(t[1])
        for li in range(len(LABELS)):
            if tier == 'quick' and n == 4 and li not in (1, 2):
                continue
            if tier != 'quick' and n == 5 and li != 1:
                continue
            yield (t, li, nl)


def run_functions(case, ctx):
    t, li, nl = case
    es = sorted((e for e in (t[1] if t[0] == 's' else [e for e, _ in t[1]])), key=T.key)
    terms, vals = label_terms(li), LABELS[li][0]
    for f in itertools.product(range(nl), repeat=len(es)):
        table = {e: terms[i] for e, i in zip(es, f)}
        pytable = {T.mk(e): vals[i] for e, i in zip(es, f)}
        for order in (0, 1):
            obj = T.mk(t, order)
            if order:
                drive.warm_shallow(obj)
            check(ctx, t, obj, lambda e: pytable[e], lambda e: table[e], 'by {}'.format([(T.show(e), vals[i]) for e, i in zip(es, f)]))
        ctx.state((t, li, f))
    ctx.trace()


# value-based class functions: (name, on objects, on terms)
FNS = [
    ('constant', lambda e: 'k', lambda e: A('k')),
    ('identity', lambda e: e, lambda e: e),
    ('kind', lambda e: 's' if e.is_set else 'm' if e.is_multiset else 'c' if e.is_couplet else 'a', lambda e: A(e[0])),
    ('cardinality', lambda e: e.cardinality if e.is_set or e.is_multiset else 0,
     lambda e: A(len(e[1]) if e[0] == 's' else sum(n for _, n in e[1]) if e[0] == 'm' else 0)),
    ('value-at-a', lambda e: e('a') if e.is_set and all(x.is_couplet for x in e) and
     len({x.left for x in e}) == len(list(e)) and any(x.left == mo.Atom('a') for x in e) else 'none', None),
    ('left-set', lambda e: mo.Set(*[x.left for x in e]) if e.is_set and all(x.is_couplet for x in e) else mo.Set('-'), None),
    ('always-one', lambda e: mo.Set(e), lambda e: S(e)),
]


def term_fn(name, fn):
    def at_a(e):
        if e[0] == 's' and all(x[0] == 'c' for x in e[1]) and len({x[1] for x in e[1]}) == len(e[1]):
            r = [x[2] for x in e[1] if x[1] == A('a')]
            if r:
                return r[0]
        return A('none')

    def lset(e):
        return T.SI(x[1] for x in e[1]) if e[0] == 's' and all(x[0] == 'c' for x in e[1]) else S('-')
    return {'value-at-a': at_a, 'left-set': lset}.get(name, fn)


def values(tier):
    vals = [t for t in U.structured() if t[0] in 'sm'] + U.rels2() + U.clans2(1 if tier == 'quick' else 2)
    s = U.sharp_rels()
    vals += list(U.subsets(s, 2, 2 if tier == 'quick' else 3)) + list(U.multisubsets(s[:8], 2, 2))
    return U.uniq(vals + U.medium_all())


PREPS = ['fresh', 'warm', 'shallow', 'rebuilt'] + ['q:' + n for n, _ in drive.QUERIES]


def gen_values(tier):
    for t in values(tier):
        yield (t,)


def run_values(case, ctx):
    t, = case
    for prep in PREPS:
        obj = drive.PREPS[prep](T.mk(t))
        for name, fn, tfn in FNS:
            got, groups = check(ctx, t, obj, fn, term_fn(name, tfn), 'by {} ({})'.format(name, prep))
            # partition of the partition
            if prep in ('fresh', 'warm'):
                pt = T.SI(groups.values())
                check(ctx, pt, got, lambda e: e.cardinality, lambda e: A(len(e[1]) if e[0] == 's' else sum(n for _, n in e[1])),
                      'by cardinality (it is the partition of {} by {})'.format(T.show(t), name))
        ctx.state((t, T.flag_vector(obj)))
    ctx.trace()


def gen_scaled(tier):
    for n in U.SIZES + (U.SIZES_XL if tier != 'quick' else [1000]):
        for t in (U.int_set(n), U.int_mset(n), U.row_clan(n), U.row_mclan(n), U.func_rel(n), U.fan_rel(n)):
            yield (t,)


def run_scaled(case, ctx):
    t, = case
    for m in (1, 2, 3, 7, 10 ** 6):
        def fn(e):
            return len(repr(e)) % m if m < 10 else repr(e)
        strs = {e: repr(T.mk(e)) for e in (t[1] if t[0] == 's' else [e for e, _ in t[1]])}
        for order in (0, 1):
            check(ctx, t, T.mk(t, order), fn, lambda e: A(len(strs[e]) % m if m < 10 else strs[e]), 'mod {}'.format(m))
    ctx.state(T.key(t)[:2000])
    ctx.trace()


FAMILIES = [
    Family('class-functions', gen_functions, run_functions),
    Family('values', gen_values, run_values),
    Family('scaled', gen_scaled, run_scaled),
]
