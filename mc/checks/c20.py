"""C20: index and call notation, left and right sets and element access answer by definition, in every order of asking."""
import itertools

import algebraixlib.mathobjects as mo
import algebraixlib.undef as ud

from .. import drive, history as H, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, MI, RP, S, SI, UNDEF

PROPERTY = 'C20'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all sequences of <= 2 accesses out of 16 (index and call at 8 lefts given as Python values and as objects, left set, right set) followed by '
             'all 16 again, on 724 values of all kinds (all relations over two atoms, clans with <= 3 of them, multi-relations, multiclans, sets of clans), each fresh, queried and '
             'rebuilt; every access on all 512 relations over three atoms; 143 values of middle size, nests of up to 12 members and levels, clans of up to 20 relations with up to 40 rights at one left, multiplicities up to 2^40; sizes up to 300',
    'thorough': 'sequences of <= 3 accesses',
}
LEFTS = [A('a'), A('b'), A(1), A(True), A('zz'), EMPTY, C('a', 1), RP(('a', 1))]


def ref_index(t, left):
    if T.is_rel(t):
        return SI(e[2] for e in t[1] if e[1] == left)
    if T.is_clan(t):
        return SI(e[2] for r in t[1] for e in r[1] if e[1] == left)
    if t[0] == 'm':
        d = {}
        if all(e[0] == 'c' for e, _ in t[1]):
            for e, n in t[1]:
                if e[1] == left:
                    d[e[2]] = d.get(e[2], 0) + n
            return MI(d)
        if T.is_mclan(t):
            for r, n in t[1]:
                for e in r[1]:
                    if e[1] == left:
                        d[e[2]] = d.get(e[2], 0) + n
            return MI(d)
        return UNDEF
    return UNDEF if t[0] == 's' else None


def ref_call(t, left):
    if t[0] != 's':
        return None
    if not T.is_rel(t) or not T.r_functional(t):
        return UNDEF
    for e in t[1]:
        if e[1] == left:
            return e[2]
    return UNDEF


def ref_side(t, i):
    if T.is_rel(t):
        return SI(e[i] for e in t[1])
    if t[0] == 'm':
        if not t[1]:
            return None          # left open (pinned by a test, odd)
        return SI(e[i] for r, _ in t[1] for e in r[1]) if T.is_mclan(t) else UNDEF
    if T.ambiguous(t):
        return None
    level = T.power_level(t)
    if level is None:
        return UNDEF

    def couplets(x):
        return x[1] if T.is_rel(x) else frozenset().union(*[couplets(e) for e in x[1]])
    return SI(e[i] for e in couplets(t))


def accesses():
    out = []
    for left in LEFTS[:5] + LEFTS[-1:]:
        py = left[2] if left[0] == 'a' else T.mk(left)
        out.append(('index', left, lambda o, k=py: o[k], ref_index))
        out.append(('call', left, lambda o, k=(T.mk(left) if left[0] == 'a' else py): o(k), ref_call))
    out.append(('index', A('a'), lambda o: o[mo.Atom('a')], ref_index))
    out.append(('call', A('a'), lambda o: o('a'), ref_call))
    out.append(('left set', None, lambda o: o.get_left_set(), lambda t, _: ref_side(t, 1)))
    out.append(('right set', None, lambda o: o.get_right_set(), lambda t, _: ref_side(t, 2)))
    return out


ACC = accesses()


def access(ctx, i, obj, t, how):
    name, left, fn, ref = ACC[i]
    want = ref(t, left)
    if t[0] not in 'sm':
        if name in ('index', 'call'):
            return
        want = UNDEF
    if t[0] == 'm' and name == 'call':
        return
    res = fn(obj)
    drive.judge(ctx, lambda: '{}{} of {} {}'.format(name, '' if left is None else ' at ' + T.show(left), T.show(t), how), res, want, 2)


def values():
    vals = U.structured() + U.rels2() + U.rels2(A('a'), A(1)) + U.clans2(2) + [SI(x) for x in itertools.combinations(U.sharp_rels(), 2)]
    cpls = U.couplets_over([A('a'), A(1)]) + [C('a', True), C('b', S(1))]
    vals += list(U.multisubsets(cpls, 2, 2)) + list(U.multisubsets(U.sharp_rels()[:10], 2, 2))
    vals += [S(S(r1, r2), S(r3)) for r1, r2, r3 in itertools.product(U.sharp_rels()[:6], repeat=3)]
    vals += [S(S(S(r1), S(r2, r3))) for r1, r2, r3 in itertools.product(U.sharp_rels()[1:5], repeat=3)]
    vals += [M({C('a', 1): 2, A('x'): 1}), M({RP(('a', 1)): 2, C('a', 1): 1}), S(C('a', 1), RP(('a', 1))), S(C('a', 1), A('a')), S(RP(('a', 1)), M({C('a', 1): 1}))]
    return U.uniq(vals)


def gen_sequences(tier):
    for t in values():
        yield (t,)


def run_sequences(case, ctx):
    t, = case
    deep = 2 if ctx.tier == 'quick' else 3
    idx = range(len(ACC))
    for prep in ('fresh', 'warm', 'shallow', 'rebuilt'):
        for n in range(deep + 1):
            if prep != 'fresh' and n > 1:
                continue
            for seq in itertools.product(idx, repeat=n):
                obj = drive.PREPS[prep](T.mk(t, sum(seq) % 2))
                for i in seq:
                    access(ctx, i, obj, t, 'after {}'.format([ACC[j][0] for j in seq]))
                if n < 2:
                    for i in idx:
                        access(ctx, i, obj, t, 'after {}'.format([ACC[j][0] for j in seq]))
                else:
                    for i in (seq[0], (seq[0] + 7) % len(ACC), seq[-1]):
                        access(ctx, i, obj, t, 'after {}'.format([ACC[j][0] for j in seq]))
                if T.term(obj) != t:
                    ctx.fail('{} changed to {}'.format(T.show(t), T.show(T.term(obj))))
        H.check_object(ctx, obj, t, 'after the accesses')
    ctx.outcome((ref_index(t, A('a')) == UNDEF, ref_side(t, 1) == UNDEF))
    ctx.state(T.key(t))
    ctx.trace()


def gen_relations(tier):
    for r in U.rels3():
        yield (r,)


def run_relations(case, ctx):
    t, = case
    es = {e for c in t[1] for e in c[1:]} | {A('zz')}
    for prep in ('fresh', 'warm', 'rebuilt'):
        for wrap in (0, 1):
            x = S(t, RP(('zz', 'q'))) if wrap else t
            obj = drive.PREPS[prep](T.mk(x))
            for e in sorted(es, key=T.key):
                drive.judge(ctx, lambda: '{}[{}] {}'.format(T.show(x), T.show(e), prep), obj[T.mk(e)], ref_index(x, e))
                drive.judge(ctx, lambda: '{}({}) {}'.format(T.show(x), T.show(e), prep), obj(T.mk(e)), ref_call(x, e))
            for i, f in ((1, obj.get_left_set), (2, obj.get_right_set)):
                drive.judge(ctx, lambda: 'left/right set of {} {}'.format(T.show(x), prep), f(), ref_side(x, i))
    ctx.state(T.key(t))
    ctx.trace()


def gen_elements(tier):
    for t in values():
        if t[0] in 'sm':
            yield (t,)


def run_elements(case, ctx):
    """has_element(s), multiplicity, cardinality, len, iteration, in."""
    t, = case
    inside = {e: 1 for e in t[1]} if t[0] == 's' else dict(t[1])
    probes = list(inside) + [A('a'), A(1), A(True), A(1.0), EMPTY, EMPTYM, C('a', 1), S(t), t]
    for prep in ('fresh', 'warm', 'rebuilt'):
        obj = drive.PREPS[prep](T.mk(t))
        n = sum(inside.values())
        if (len(obj), obj.cardinality) != (n, n) or obj.is_empty is not (not inside):
            ctx.fail('size of {}: len {}, cardinality {}, is_empty {}'.format(T.show(t), len(obj), obj.cardinality, obj.is_empty))
        got = {}
        for e in obj:
            x = T.term(e)
            got[x] = got.get(x, 0) + 1
        if got != inside:
            ctx.fail('iteration over {} gives {}'.format(T.show(t), got))
        for p in probes:
            ctx.step(3)
            o = T.mk(p)
            want = p in inside
            if (o in obj) is not want or obj.has_element(o) is not want or (not want) is not (o not in obj):
                ctx.fail('{} in {}: {} / {}'.format(T.show(p), T.show(t), o in obj, obj.has_element(o)))
            if p[0] == 'a' and (p[2] in obj) is not want:
                ctx.fail('Python value {} in {} is not {}'.format(T.show(p), T.show(t), want))
            if t[0] == 'm' and obj.get_multiplicity(o) != inside.get(p, 0):
                ctx.fail('multiplicity of {} in {}: {}'.format(T.show(p), T.show(t), obj.get_multiplicity(o)))
        H.check_object(ctx, obj, t, 'after looking up elements')
    ctx.state(('e', T.key(t)))
    ctx.trace()


def gen_scaled(tier):
    for n in U.SIZES + (U.SIZES_XL if tier != 'quick' else [1000]):
        for t in (U.func_rel(n), U.fan_rel(n), U.chain_rel(n), U.row_clan(n), U.row_mclan(n), MI({C('a', i): 1 + i % 3 for i in range(n)}), SI(C(i % 3, i) for i in range(n))):
            yield (t,)


SHAPES = [(1, 3), (1, 5), (2, 2), (2, 3), (2, 4), (3, 3), (4, 1), (4, 3), (5, 4), (6, 2), (9, 3), (20, 5), (3, 40)]


def gen_shapes(tier):
    """Many rights at one left in several relations, deep and wide nests, big multiplicities."""
    for n, k in SHAPES:
        for step in (0, 1, k):
            clan = U.fan_clan(n, k, step)
            yield (clan,)
            yield (S(*[S(r) for r in clan[1]]),)
            yield (S(clan, S(RP(('a', 'q')))),)
            yield (MI({r: 1 + i * 7 for i, r in enumerate(sorted(clan[1], key=T.key))}),)
    for t in U.medium_all():
        yield (t,)
    for n in (2, 3, 4, 5, 6, 7, 9, 12):
        rels = [RP(('a', i), ('l{}'.format(i), i + 1)) for i in range(n)]
        groups = [SI(rels[i::3]) for i in range(3) if rels[i::3]]
        yield (SI(rels),)
        yield (SI(S(r) for r in rels),)
        yield (SI(S(S(r)) for r in rels),)
        yield (SI(groups),)
        yield (SI(rels + [A('q')]),)
        yield (SI([S(r) for r in rels] + [S(A('q'))]),)
        deep = SI(rels)
        for _ in range(n):
            deep = S(deep)
        yield (deep,)
    for big in (4, 5, 6, 7, 12, 100, 10 ** 6, 2 ** 40):
        yield (M({C('a', 1): big, C('a', 2): 1, C('b', 1): big - 1}),)
        yield (MI({C('a', i): big + i for i in range(4)}),)
        if big < 1000:
            yield (M({RP(('a', 1)): big, RP(('a', 1), ('a', 2)): 3, RP(('b', 1)): 1}),)
            yield (MI({RP(('a', i), ('k', 1)): big for i in range(4)}),)


def run_scaled(case, ctx):
    t, = case
    for prep in ('fresh', 'warm', 'rebuilt'):
        obj = drive.PREPS[prep](T.mk(t))
        for e in [A('a'), A('k'), A(0), A(1), A('c0'), A('k1'), A('b0'), A('x'), A(len(t[1]) - 1), A('nope')]:
            for rep in (0, 1):
                drive.judge(ctx, lambda: 'index at {} {}'.format(T.show(e), prep), obj[T.mk(e)], ref_index(t, e))
                if t[0] == 's':
                    drive.judge(ctx, lambda: 'call at {} {}'.format(T.show(e), prep), obj(T.mk(e)), ref_call(t, e))
        drive.judge(ctx, 'left set', obj.get_left_set(), ref_side(t, 1))
        drive.judge(ctx, 'right set', obj.get_right_set(), ref_side(t, 2))
    ctx.state(T.key(t)[:500])
    ctx.trace()


FAMILIES = [
    Family('sequences', gen_sequences, run_sequences),
    Family('relations', gen_relations, run_relations, block=8),
    Family('elements', gen_elements, run_elements, block=8),
    Family('shapes', gen_shapes, run_scaled, block=4),
    Family('scaled', gen_scaled, run_scaled),
]
