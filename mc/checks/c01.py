"""C01: equality, hash, order and containment of values are those of the mathematical values."""
import collections
import functools
import itertools

import algebraixlib.mathobjects as mo
from algebraixlib.algebras import multisets, sets

from .. import drive, ops, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S

PROPERTY = 'C01'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all pairs of ~330 values of all kinds (15 atoms whose Python values collide in == or hash, in '
             'couplets, sets, multisets and nested; relations, clans, multiclans), each fresh, queried and as the '
             'result of an operation; all argument sequences of length <=3 over 9 items through 8 construction '
             'routes; all insertion orders of all sets with <=5 elements; sizes up to 1000, nesting up to 60',
    'thorough': 'all pairs of ~900 values, argument sequences of length <=4',
}


@functools.lru_cache(None)
def universe(tier):
    if tier == 'medium':
        return tuple(U.medium_all())
    col = U.COLLIDING
    out = U.structured() + col + U.rels2()
    out += [C(x, 'k') for x in col] + [C('k', x) for x in col] + [S(x) for x in col] + [M({x: 1}) for x in col]
    few = col[:6]
    out += list(U.subsets(few, 0, 2 if tier == 'quick' else 4)) + list(U.multisubsets(few[:4], 2, 2))
    out += list(U.couplets_over(few[:4])) + [S(S(x)) for x in few] + [S(C(x, y)) for x in few[:3] for y in few[:3]]
    out += [S(S(C(x, 1))) for x in few[:3]] + [M({S(C(1, x)): 1}) for x in few[:3]]
    out += [A('a b'), A('Atom(1)'), A("'"), A('\n'), A('b'), A('B'), A(10), A(9), A(2.0), A(-0.5), A(b''), A((1, 'x'))]
    out += [M({'a': 10}), M({'a': 9}), M({'a': 11}), M({'a': 2, 'b': 1}), M({'a': 1, 'b': 2}), S('a', 'b', 'c'), S('a', 'bc'), S('ab', 'c'),
            C('a', 'bc'), C('ab', 'c'), C(C('a', 'b'), 'c'), C('a', C('b', 'c')), C(EMPTY, EMPTYM), C(EMPTYM, EMPTY)]
    if tier != 'quick':
        out += U.clans2(2) + [S(c) for c in U.clans2(2)[:60]] + list(U.multisubsets(U.rels2(), 1, 3)) + U.rels3()[:200]
    return tuple(U.uniq(out))


@functools.lru_cache(None)
def objects(tier, prep):
    return [drive.PREPS[prep](T.mk(t, i % 3)) for i, t in enumerate(universe(tier))]


@functools.lru_cache(None)
def ranks(tier):
    objs = objects(tier, 'fresh')
    order = sorted(range(len(objs)), key=functools.cmp_to_key(lambda i, j: -1 if objs[i] < objs[j] else 1 if objs[j] < objs[i] else 0))
    return {i: k for k, i in enumerate(order)}


def gen_pairs(tier):
    for kind in (tier, 'medium'):
        for i in range(len(universe(kind))):
            yield (kind, i)


def run_pairs(case, ctx):
    tier, i = case
    ts = universe(tier)
    t = ts[i]
    rk = ranks(tier)
    for prep, mine in (('fresh', T.mk(t, 1)), ('warm', drive.PREPS['warm'](T.mk(t))), ('rebuilt', drive.PREPS['rebuilt'](T.mk(t)))):
        others = objects(tier, prep if prep != 'rebuilt' else 'fresh')
        if hash(mine) != hash(mine) or not mine == mine or mine != mine or mine < mine or mine > mine or not mine <= mine or not mine >= mine:
            ctx.fail('{} is not equal to itself'.format(T.show(t)))
        for j, u in enumerate(ts):
            other = others[j]
            same = i == j
            ctx.step(8)
            got = (mine == other, mine != other, other == mine, mine < other, mine > other, mine <= other, mine >= other, other < mine)
            less, more = rk[i] < rk[j], rk[i] > rk[j]
            want = (same, not same, same, less, more, less or same, more or same, more)
            if got != want:
                ctx.fail('{} vs. {} [{}]: (==, !=, swapped ==, <, >, <=, >=, swapped <) = {}, expected {} (from one '
                         'total order of all values)'.format(T.show(t), T.show(u), prep, got, want))
            if any(type(g) is not bool for g in got):
                ctx.fail('{} vs. {}: a comparison does not answer with a bool: {}'.format(T.show(t), T.show(u), got))
            if same and (hash(mine) != hash(other) or repr(mine) != repr(other) or str(mine) != str(other)):
                ctx.fail('equal values {} differ in hash, repr or str'.format(T.show(t)))
            if len({mine, other}) != (1 if same else 2) or (other in {mine: 1}) is not same:
                ctx.fail('{} and {} in a Python set or dict'.format(T.show(t), T.show(u)))
            # containment in values
            s2 = mo.Set(mine, other)
            m2 = mo.Multiset([mine, other])
            n = 1 if same else 2
            if s2.cardinality != n or len(s2) != n or not s2.has_element(other) or mine not in s2 or \
                    m2.cardinality != 2 or m2.get_multiplicity(mine) != (2 if same else 1) or len(m2.data) != n:
                ctx.fail('set / multiset of {} and {}'.format(T.show(t), T.show(u)))
            s1, m1 = mo.Set([mine]), mo.Multiset({mine: 2})
            if s1.has_element(other) is not same or (other in s1) is not same or m1.has_element(other) is not same \
                    or (other in m1) is not same or m1.get_multiplicity(other) != (2 if same else 0):
                ctx.fail('containment of {} in a set or multiset of {}'.format(T.show(u), T.show(t)))
            if (mo.Couplet(mine, other) == mo.Couplet(other, mine)) is not same or \
                    (mo.Couplet(mine, 'k') == mo.Couplet(other, 'k')) is not same:
                ctx.fail('couplets of {} and {}'.format(T.show(t), T.show(u)))
            if (s1 == mo.Set([other])) is not same or (mo.Multiset({other: 2}) == m1) is not same or \
                    mo.Multiset({other: 1}) == m1 or s1 == m1 or s2 == m2:
                ctx.fail('sets / multisets of {} and {}'.format(T.show(t), T.show(u)))
    for x in (1, 'a', None, 1.0, (), frozenset(), 'Set()'):
        if T.mk(t) == x or not T.mk(t) != x:
            ctx.fail('{} equals the plain value {!r}'.format(T.show(t), x))
    ctx.state(t)
    ctx.outcome(i)
    ctx.trace()


# Construction ------------------------------------------------------------------------------------------
ITEMS = ['a', 'ab', 1, True, 1.0, None, ('t', C('a', 'b')), ('t', S('a')), ('t', A('a'))]
SIMPLE = {'a', 'ab', 1, True, 1.0, None}


def is_t(x):
    return isinstance(x, tuple) and x and x[0] == 't'


def as_term(x):
    return x[1] if is_t(x) else A(x)


def as_arg(x):
    return T.mk(x[1]) if is_t(x) else x


def gen_ctor(tier):
    for k in range(0, 4 if tier == 'quick' else 5):
        for seq in itertools.product(range(len(ITEMS)), repeat=k):
            yield seq


def expect(ctx, how, obj, want):
    ctx.step()
    try:
        got = T.term(obj)
    except T.Malformed as e:
        ctx.fail('{}: {}'.format(how, e))
    if got != want:
        ctx.fail('{} is {}, expected {}'.format(how, T.show(got), T.show(want)))
    bad = T.deep_unsound(obj, want)
    if bad:
        ctx.fail('{}: {}'.format(how, bad[0]))
    fresh = T.mk(want)
    if not obj == fresh or hash(obj) != hash(fresh) or repr(obj) != repr(fresh):
        ctx.fail('{} differs from the value {}'.format(how, T.show(want)))


def run_ctor(case, ctx):
    items = [ITEMS[i] for i in case]
    ts = [as_term(x) for x in items]
    args = lambda: [as_arg(x) for x in items]
    wset = ('s', frozenset(ts))
    cnt = collections.Counter(ts)
    wms = ('m', frozenset(cnt.items()))
    name = repr(items)
    for how, f in (('Set(list)', lambda: mo.Set(args())), ('Set(tuple)', lambda: mo.Set(tuple(args()))),
                   ('Set(generator)', lambda: mo.Set(x for x in args())), ('Set(iterator)', lambda: mo.Set(iter(args()))),
                   ('Set(dict)', lambda: mo.Set(collections.OrderedDict((mo.Atom(x) if not isinstance(x, mo.MathObject) else x, 1) for x in args()))),
                   ('Set(reversed)', lambda: mo.Set(args()[::-1])),
                   ('Set(objects, direct_load)', lambda: mo.Set([mo.auto_convert(x) for x in args()], direct_load=True)),
                   ('make_set', lambda: mo.make_set(*args()) if len(items) != 1 or not is_t(items[0]) else mo.Set(args()))):
        expect(ctx, '{} of {}'.format(how, name), f(), wset)
    if len(items) != 1:
        expect(ctx, 'Set(*args) of ' + name, mo.Set(*args()), wset)
        expect(ctx, 'Multiset(*args) of ' + name, mo.Multiset(*args()), wms)
    else:
        expect(ctx, 'Set(arg) of ' + name, mo.Set(args()[0]), wset)
        expect(ctx, 'Multiset(arg) of ' + name, mo.Multiset(args()[0]), wms)
    for how, f in (('Multiset(list)', lambda: mo.Multiset(args())), ('Multiset(tuple)', lambda: mo.Multiset(tuple(args()))),
                   ('Multiset(generator)', lambda: mo.Multiset(x for x in args())),
                   ('Multiset(objects, direct_load)', lambda: mo.Multiset([mo.auto_convert(x) for x in args()], direct_load=True))):
        expect(ctx, '{} of {}'.format(how, name), f(), wms)
    for ctr in (dict, collections.Counter, collections.OrderedDict):
        d = ctr()
        for x in args():
            k = mo.auto_convert(x)
            d[k] = d.get(k, 0) + 1
        before = list(d.items())
        expect(ctx, 'Multiset({}) of {}'.format(ctr.__name__, name), mo.Multiset(d), wms)
        expect(ctx, 'Multiset({}, direct_load) of {}'.format(ctr.__name__, name), mo.Multiset(d, direct_load=True), wms)
        if list(d.items()) != before:
            ctx.fail('Multiset({}) changed its argument'.format(ctr.__name__))
    if len(items) == 2:
        if items[1] is not None:
            expect(ctx, 'Couplet of ' + name, mo.Couplet(*args()), ('c', ts[0], ts[1]))
            expect(ctx, 'make_couplet of ' + name, mo.make_couplet(*args()), ('c', ts[0], ts[1]))
        expect(ctx, 'Couplet of objects of ' + name,
               mo.Couplet(mo.auto_convert(as_arg(items[0])), mo.auto_convert(as_arg(items[1])), direct_load=True), ('c', ts[0], ts[1]))
        expect(ctx, 'Couplet(left=, right=) of ' + name, mo.Couplet(left=as_arg(items[0]), right=mo.auto_convert(as_arg(items[1]))), ('c', ts[0], ts[1]))
    if len(items) == 1:
        expect(ctx, 'Couplet of ' + name, mo.Couplet(*args()), ('c', ts[0], ts[0]))
        if not is_t(items[0]):
            a = mo.Atom(items[0])
            expect(ctx, 'Atom of ' + name, a, ts[0])
            if mo.Atom(a) is not a or a.value is not items[0] and a.value != items[0] or a.type is not type(items[0]):
                ctx.fail('Atom of ' + name)
    # containment, multiplicity, iteration, cardinality
    s, m = mo.Set(args()), mo.Multiset(args())
    if s.cardinality != len(set(ts)) or len(s) != len(set(ts)) or s.is_empty is not (not ts) or m.is_empty is not (not ts) \
            or m.cardinality != len(ts) or len(m) != len(ts):
        ctx.fail('cardinality of ' + name)
    if sorted(T.key(T.term(e)) for e in s) != sorted(T.key(t) for t in set(ts)) or \
            sorted(T.key(T.term(e)) for e in m) != sorted(map(T.key, ts)):
        ctx.fail('iteration over ' + name)
    for x in ITEMS:
        t = as_term(x)
        ctx.step(4)
        if s.has_element(mo.auto_convert(as_arg(x))) is not (t in cnt) or m.has_element(mo.auto_convert(as_arg(x))) is not (t in cnt) or \
                (as_arg(x) in s) is not (t in cnt) or (as_arg(x) in m) is not (t in cnt) or \
                m.get_multiplicity(mo.auto_convert(as_arg(x))) != cnt.get(t, 0):
            ctx.fail('containment of {!r} in {}'.format(x, name))
    if T.term(s) != wset or T.term(m) != wms:
        ctx.fail('looking up elements changed ' + name)
    ctx.state(case)
    ctx.trace()


# Multisets from dictionaries with multiplicities -------------------------------------------------------
def gen_mult(tier):
    keys = ['a', 1, 'ab', None, 2.5]
    for k in range(0, 4):
        for ks in itertools.combinations(keys, k):
            for ns in itertools.product([1, 2, 3, 10], repeat=k):
                yield tuple(zip(ks, ns))


def run_mult(case, ctx):
    want = M(dict(case))
    for ctr in (dict, collections.Counter, collections.OrderedDict):
        for raw in (True, False):
            for order in itertools.permutations(case):
                d = ctr()
                for k, n in order:
                    d[k if raw else mo.Atom(k)] = n
                expect(ctx, 'Multiset({}({}))'.format(ctr.__name__, order), mo.Multiset(d), want)
    # a plain value and the atom of it are different keys of the dictionary, but the same element
    for keep in range(1, 2 ** len(case)):
        for first in (True, False):
            d, w = {}, {}
            for i, (k, n) in enumerate(case):
                d[k if first else mo.Atom(k)] = n
                w[k] = n
            for i, (k, n) in enumerate(case):
                if keep >> i & 1:
                    d[mo.Atom(k) if first else k] = n + 1
                    w[k] += n + 1
            expect(ctx, 'Multiset({})'.format(d), mo.Multiset(d), M(w))
            expect(ctx, 'Set({})'.format(d), mo.Set(d), S(*w))
    m = mo.Multiset(dict(case))
    if m.cardinality != sum(n for _, n in case) or len(m) != m.cardinality:
        ctx.fail('cardinality of {}'.format(case))
    for k, n in case:
        if m.get_multiplicity(mo.Atom(k)) != n:
            ctx.fail('multiplicity of {!r} in {}'.format(k, case))
    if collections.Counter(T.term(e) for e in m) != collections.Counter({A(k): n for k, n in case}):
        ctx.fail('iteration over {}'.format(case))
    ctx.trace()


# Insertion orders ----------------------------------------------------------------------------------------
def gen_perm(tier):
    el = [A(1), A(True), A('a'), C('a', 'b'), EMPTY, M({'a': 2})]
    for t in U.subsets(el, 2, 5 if tier == 'quick' else 6):
        yield (t,)
    for t in U.multisubsets(el[:5], 4, 2):
        if len(t[1]) >= 2:
            yield (t,)
    for t in U.rels2() + [t for t in U.structured() if t[0] in 'sm' and 2 <= len(t[1]) <= 5]:
        if len(t[1]) >= 2:
            yield (t,)


def run_perm(case, ctx):
    t, = case
    ref = T.mk(t)
    for perm in itertools.permutations(range(len(t[1]))):
        o = T.mk_perm(t, perm)
        ctx.step(4)
        if not (o == ref and ref == o) or o != ref or hash(o) != hash(ref) or repr(o) != repr(ref) or str(o) != str(ref) \
                or o < ref or o > ref or T.term(o) != t:
            ctx.fail('{} built in order {}'.format(T.show(t), perm))
        # built by adding one element after the other
        inc = mo.Set() if t[0] == 's' else mo.Multiset()
        es = T.elems(t)
        for i in perm:
            if t[0] == 's':
                inc = sets.union(inc, mo.Set([T.mk(es[i])]))
            else:
                inc = multisets.add(inc, mo.Multiset({T.mk(es[i][0]): es[i][1]}))
        if inc != ref or hash(inc) != hash(ref) or repr(inc) != repr(ref):
            ctx.fail('{} accumulated in order {}'.format(T.show(t), perm))
    ctx.state(t)
    ctx.trace()


# Larger values -------------------------------------------------------------------------------------------
def nest(kind, d, x='a'):
    t = A(x)
    for i in range(d):
        t = C(t, 'k') if kind == 'l' else C('k', t) if kind == 'r' else S(t) if kind == 's' else \
            M({t: 1}) if kind == 'm' else (S(t) if i % 3 == 0 else M({t: 2}) if i % 3 == 1 else C(t, 'k'))
    return t


def turn(t):
    """Exchange left and right in all couplets."""
    if t[0] == 'c':
        return ('c', turn(t[2]), turn(t[1]))
    if t[0] == 's':
        return ('s', frozenset(turn(e) for e in t[1]))
    if t[0] == 'm':
        return ('m', frozenset((turn(e), n) for e, n in t[1]))
    return t


def gen_scaled(tier):
    for n in U.SIZES + [500, 512, 999, 1000]:
        for a, b in ((U.int_set(n), U.int_set(n, 1)), (U.int_mset(n), U.int_mset(n, 0, (1, 2, 4))),
                     (U.func_rel(n), U.func_rel(n, 0, 1001)), (U.row_clan(n), U.row_clan(n, 2, 0, 8)),
                     (U.row_mclan(n), U.row_mclan(n, 2, 0, (1, 2, 4))),
                     (A('x' * n), A('x' * n + 'y')), (A(10 ** n), A(10 ** n + 1)), (A(tuple(range(n))), A(tuple(range(1, n + 1)))),
                     (M({'a': n + 1}), M({'a': n + 2}))):
            yield (a, b)
            if a[0] in 'sm' and n:
                # equal sums of the hashes of left and right: everything turned around
                turned = turn(a)
                if turned != a:
                    yield (a, turned)
            if a[0] == 's' and n:
                es = sorted(a[1], key=T.key)
                for k in (0, len(es) // 2, len(es) - 1):
                    yield (a, ('s', frozenset(es[:k] + es[k + 1:] + [A('odd')])))
                yield (a, ('s', frozenset(es[1:])))
                yield (a, ('s', frozenset(es + [A('odd')])))
    for kind in 'lrsmx':
        for d in range(0, 60 if tier == 'quick' else 120):
            yield (nest(kind, d), nest(kind, d, 'b'))
            yield (nest(kind, d), nest(kind, d + 1))
    for v in (0, 1, -1, 2 ** 61 - 1, 2 ** 31, 2 ** 63, 2 ** 64):
        yield (A(v), A(v + 2 ** 61 - 1))
        yield (S(v, 3), S(v + 2 ** 61 - 1, 3))
        yield (S(v, v + 3), S(v + 1, v + 2))          # equal sums of hashes
        yield (C(v, v + 3), C(v + 3, v))
        yield (RP((v, v + 3)), RP((v + 3, v)))
        yield (M({v: 2, v + 1: 1}), M({v: 1, v + 1: 2}))


def run_scaled(case, ctx):
    t, u = case
    same = t == u
    for order in (0, 1, 2):
        a, a2, b = T.mk(t, order), T.mk(t), T.mk(u, order)
        if order == 2:
            for o in (a, b):
                drive.warm_shallow(o)
        ctx.step(8)
        if not (a == a2 and not a != a2 and hash(a) == hash(a2) and not a < a2 and not a > a2 and a <= a2 and a >= a2):
            ctx.fail('two objects for {} are not equal (order {})'.format(T.show(t)[:300], order))
        if (a == b) is not same or (a != b) is same or (b == a) is not same or (a < b) + (a > b) + same != 1 or \
                (a <= b) is not (a < b or same) or (a >= b) is not (a > b or same) or (a < b) is not (b > a):
            ctx.fail('comparison of {} and {} (order {})'.format(T.show(t)[:300], T.show(u)[:300], order))
        if T.term(a) != t or len({a, a2, b}) != (1 if same else 2):
            ctx.fail('{} in a Python set'.format(T.show(t)[:300]))
        # all of them are hashed now, which must not make a difference
        if not (a == a2 and a2 == a) or (a == b) is not same or (b == a) is not same or (a != b) is same or \
                (a < b) + (a > b) + same != 1 or len({b, a2, a}) != (1 if same else 2):
            ctx.fail('comparison of {} and {}, both hashed (order {})'.format(T.show(t)[:300], T.show(u)[:300], order))
        if repr(a) != repr(a2) or str(a) != str(a2):
            ctx.fail('repr of {}'.format(T.show(t)[:300]))
        if t[0] in 'sm' and t[1]:
            es = T.elems(t)
            for e in (es[0], es[-1]):
                e, n = e if t[0] == 'm' else (e, 1)
                if not a.has_element(T.mk(e)) or T.mk(e) not in a or (t[0] == 'm' and a.get_multiplicity(T.mk(e)) != n):
                    ctx.fail('containment of {} in {}'.format(T.show(e), T.show(t)[:300]))
            if a.has_element(mo.Atom('not there')) or 'not there' in a:
                ctx.fail('containment in {}'.format(T.show(t)[:300]))
            if a.cardinality != (len(es) if t[0] == 's' else sum(n for _, n in es)) or len(a) != a.cardinality:
                ctx.fail('cardinality of {}'.format(T.show(t)[:300]))
    ctx.state(case)
    ctx.trace()


# Values that are results of operations are the same values --------------------------------------------
def gen_results(tier):
    small = {'set': [t for t in U.structured() if t[0] == 's'][:24], 'rel': U.rels2(), 'mset': [t for t in U.structured() if t[0] == 'm'],
             'clan': U.clans2(1) + U.clans2(2)[20:24], 'mclan': list(U.multisubsets(U.sharp_rels()[:6], 1, 2)), 'couplet': U.couplets_over([A('a'), A('b')]), 'left': [A('a')]}
    for op in ops.OPS:
        if op.name.startswith('is_'):
            continue
        for args in itertools.product(*[small[k] for k in op.kinds]):
            yield (op.id,) + args


def run_results(case, ctx):
    op, args = ops.BY_ID[case[0]], case[1:]
    want = op.ref(*args)
    if want is None or want is T.UNDEF:
        return
    for prep in ('fresh', 'warm'):
        objs = [drive.PREPS[prep](T.mk(t)) for t in args]
        hs = [hash(o) for o in objs] if prep == 'warm' else None
        res = op.fn(*objs)
        ref = T.mk(want, 1)
        ctx.step(3)
        if not (res == ref and ref == res) or res != ref or hash(res) != hash(ref) or repr(res) != repr(ref) or \
                res < ref or res > ref or len({res, ref}) != 1:
            ctx.fail('{}({}) is not the same value as {}'.format(op.id, ', '.join(map(T.show, args)), T.show(want)))
        for o, t in zip(objs, args):
            if o != T.mk(t) or hash(o) != hash(T.mk(t)):
                ctx.fail('operand {} of {} is no longer equal to its value'.format(T.show(t), op.id))
        if hs and hs != [hash(o) for o in objs]:
            ctx.fail('hash of an operand of {} changed'.format(op.id))
    ctx.trace()


FAMILIES = [
    Family('pairs', gen_pairs, run_pairs),
    Family('construction', gen_ctor, run_ctor, block=4),
    Family('multiplicities', gen_mult, run_mult, block=4),
    Family('insertion-orders', gen_perm, run_perm),
    Family('scaled', gen_scaled, run_scaled),
    Family('operation-results', gen_results, run_results, block=16),
]
