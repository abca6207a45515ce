"""C11: structures form a partial order with unions as least upper bounds; ground sets are minimal and decide membership."""
import itertools

import algebraixlib.structure as st
from algebraixlib.algebras import clans, couplets, multiclans, multisets, relations, sets

from .. import drive, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S

PROPERTY = 'C11'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all pairs and all triples of 264 structures (empty, A, M, products with N on the right, power sets, unions, nesting <= 4); unions '
             'of all sequences of <= 5 of 9 parts in every order; ground sets of ~330 values '
             'of all kinds against 55 core structures, fresh and queried; sizes up to 300, nesting up to 12',
    'thorough': 'unions of all sequences of <= 6 parts',
}

BOT, SA, SM, SN = ('bot',), ('A',), ('M',), ('N',)


def X(l, r):
    return ('x', l, r)


def P(s):
    return ('P', s)


def UN(*parts):
    """The canonical union: flattened, subsumed parts removed."""
    flat = []
    for p in parts:
        flat.extend(p[1] if p[0] == 'U' else [p])
    keep = {p for p in flat if not any(q != p and sub(p, q) for q in flat)}
    if len(keep) == 1:
        return next(iter(keep))
    return ('U', frozenset(keep))


def sub(s, t):
    if s == BOT or t == SM and s != SN:
        return True
    if s[0] == 'U':
        return all(sub(p, t) for p in s[1])
    if t[0] == 'U':
        return any(sub(s, p) for p in t[1])
    if s[0] in 'AMN' and len(s) == 1:
        return s == t
    if s[0] != t[0]:
        return False
    if s[0] == 'x':
        return sub(s[1], t[1]) and sub(s[2], t[2])
    if s[0] == 'P':
        return sub(s[1], t[1])
    return s == t


def level(s, t):
    n = 0
    while s[0] == 'P':
        n += 1
        s = s[1]
        if sub(s, t):
            return n
    return 0


def build(s, wrap=False):
    """The real structure; with ``wrap`` every part is put into a one-member union first."""
    if s == BOT:
        r = st.Structure()
    elif s == SA:
        r = st.GenesisSetA()
    elif s == SM:
        r = st.GenesisSetM()
    elif s == SN:
        r = st.GenesisSetN()
    elif s[0] == 'x':
        r = st.CartesianProduct(build(s[1], wrap), build(s[2], wrap))
    elif s[0] == 'P':
        r = st.PowerSet(build(s[1], wrap))
    else:
        r = st.Union([build(p, wrap) for p in sorted(s[1], key=repr)])
    return st.Union([r]) if wrap and s != SN and s[0] != 'U' else r


def show(s):
    if s == BOT:
        return '{}'
    if len(s) == 1:
        return s[0]
    if s[0] == 'x':
        return '({} x {})'.format(show(s[1]), show(s[2]))
    if s[0] == 'P':
        return 'P({})'.format(show(s[1]))
    return '(' + ' U '.join(sorted(map(show, s[1]))) + ')'


def core():
    b = [SA, SM]
    l1 = [X(l, r) for l in b for r in b] + [X(SA, SN), X(SM, SN)] + [P(s) for s in b]
    l2 = [P(X(SA, SA)), P(X(SA, SM)), P(X(SM, SA)), P(X(SM, SM)), P(X(SA, SN)), P(X(SM, SN)), P(P(SA)), P(P(SM)), P(BOT),
          P(P(X(SA, SA))), P(P(X(SM, SM))), P(X(P(X(SA, SA)), SN)), P(X(P(X(SM, SM)), SN)),
          X(P(SA), SA), X(SA, P(SA)), X(X(SA, SA), SA), X(SA, X(SA, SA)), X(P(SM), SM), X(P(SA), P(SA)), P(P(P(X(SA, SA)))),
          P(P(P(X(SM, SM))))]
    un = [UN(SA, X(SA, SA)), UN(SA, P(SA)), UN(P(SA), X(SA, SA)), UN(SA, X(SA, SM), P(SM)), UN(SA, X(SM, SA), X(SA, SM)),
          UN(P(SA), P(X(SA, SA))), UN(P(P(SA)), P(SA)), UN(X(SA, P(SA)), X(P(SA), SA))]
    l3 = [P(u) for u in un] + [P(P(un[0])), P(P(un[2])), X(un[0], SA), X(SA, un[0]), X(un[1], un[0]), P(X(un[0], SA)), P(X(un[1], SN))]
    return U.uniq([BOT] + b + l1 + l2 + un + l3)


def wide():
    c = core()
    more = [UN(a, b) for a, b in itertools.combinations(c[1:24], 2) if SN not in (a, b)]
    return U.uniq(c + more + [P(x) for x in c if x != SN])


def gen_pairs(tier):
    w = wide()
    for i, s in enumerate(w):
        yield (s,)


def run_pairs(case, ctx):
    s, = case
    forms = [build(s), build(s, True)] if s != BOT else [build(s), st.Structure()]
    for t in wide():
        want = sub(s, t)
        rev = sub(t, s)
        for rs in forms:
            for rt in ([build(t), build(t, True)] if t != BOT else [build(t)]):
                ctx.step(6)
                got = (rs.is_subset(rt), rs <= rt)
                if got != (want, want):
                    ctx.fail('{} <= {}: {}, expected {}'.format(rs, rt, got, want))
                if (rt <= rs) is not rev:
                    ctx.fail('{} <= {}: {}, expected {}'.format(rt, rs, rt <= rs, rev))
                eq = s == t
                if eq != (want and rev):
                    raise AssertionError('reference is not antisymmetric')
                if (rs == rt) is not eq or (rs != rt) is eq or rs.is_same(rt) is not eq or (rt == rs) is not eq:
                    ctx.fail('{!r} == {!r}: {}, expected {}'.format(rs, rt, rs == rt, eq))
                if eq and hash(rs) != hash(rt):
                    ctx.fail('equal structures {!r} and {!r} have different hashes'.format(rs, rt))
        if s[0] == 'P' and t != BOT:
            ctx.step()
            got = build(s).get_powerset_level(build(t))
            if got != level(s, t):
                ctx.fail('power set level of {} over {}: {}, expected {}'.format(show(s), show(t), got, level(s, t)))
        elif s[0] != 'P':
            if build(s).get_powerset_level(build(t)) != 0:
                ctx.fail('power set level of {} over {} is not 0'.format(show(s), show(t)))
        ctx.state((s, t))
        ctx.outcome((want, rev))
    if len({hash(f) for f in forms}) > 1 or len(set(forms)) > 1:
        ctx.fail('{!r} and its one-member union are different'.format(forms[0]))
    ctx.trace()


def gen_laws(tier):
    c = wide()
    for s in c:
        yield (s, tier)


def run_laws(case, ctx):
    """The partial-order laws and the constructors' monotonicity, on the real structures alone."""
    s, tier = case
    w = wide()
    rs = build(s)
    objs = [(t, build(t)) for t in w]
    if not rs <= rs or not rs == rs:
        ctx.fail('{} is not a subset of itself'.format(rs))
    if s != SN and not (rs <= st.GenesisSetM()):
        ctx.fail('{} is not a subset of M'.format(rs))
    if not st.Structure() <= rs:
        ctx.fail('the empty structure is not a subset of {}'.format(rs))
    for t, rt in objs:
        st_le = rs <= rt
        ctx.step()
        if st_le:
            if not st.PowerSet(rs) <= st.PowerSet(rt):
                ctx.fail('{} <= {} but not their power sets'.format(rs, rt))
            if st.PowerSet(rs) == st.PowerSet(rt) and not rs == rt:
                ctx.fail('power sets of the different {} and {} are equal'.format(rs, rt))
        if s != SN and t != SN and s != BOT and t != BOT:
            lub = st.Union([rs, rt])
            if not (rs <= lub and rt <= lub):
                ctx.fail('{} and {} are not subsets of their union {}'.format(rs, rt, lub))
            if lub != st.Union([rt, rs]) or hash(lub) != hash(st.Union([rt, rs])):
                ctx.fail('the union of {} and {} depends on their order'.format(rs, rt))
            if (lub == rt) is not st_le:
                ctx.fail('{} <= {} is {}, but their union is {}'.format(rs, rt, st_le, lub))
        else:
            lub = None
        for u, ru in objs:
            ctx.step()
            t_le = rt <= ru
            if st_le and t_le and not rs <= ru:
                ctx.fail('{} <= {} <= {} but not {} <= {}'.format(rs, rt, ru, rs, ru))
            if lub is not None and u != SN and rs <= ru and t_le and not lub <= ru:
                ctx.fail('{} and {} are subsets of {}, their union is not'.format(rs, rt, ru))
        ctx.state((s, t))
    ctx.trace()


def parts():
    return [SA, X(SA, SA), X(SA, SM), P(SA), P(SM), X(SM, SM), P(X(SA, SA)), UN(SA, P(SA)), SM]


def gen_unions(tier):
    ps = parts()
    for n in range(1, 6 if tier == 'quick' else 7):
        for seq in itertools.product(range(len(ps)), repeat=n):
            yield seq


def run_unions(case, ctx):
    ps = parts()
    seq = [ps[i] for i in case]
    want = UN(*seq)
    built = st.Union([build(s) for s in seq])
    ctx.step(3)
    ref = build(want)
    if built != ref or ref != built or hash(built) != hash(ref):
        ctx.fail('Union({}) is {!r}, expected {!r}'.format(', '.join(map(show, seq)), built, ref))
    got = {repr(p) for p in built.data}
    exp = {repr(build(p)) for p in (want[1] if want[0] == 'U' else [want])}
    if got != exp:
        ctx.fail('Union({}) has the members {}, expected {}'.format(', '.join(map(show, seq)), sorted(got), sorted(exp)))
    gen = st.Union(build(s) for s in seq)
    if gen != built:
        ctx.fail('Union of an iterator differs: {!r} / {!r}'.format(gen, built))
    # A union of one structure is equal to that structure, but remains (and prints as) a union: compare with a union.
    same = ref if isinstance(ref, st.Union) else st.Union([ref])
    if str(built) != str(same) or repr(built) != repr(same):
        ctx.fail('equal unions print differently: {!r} / {!r}'.format(built, same))
    ctx.state(case)
    ctx.outcome(want)
    ctx.trace()


# -- ground sets -------------------------------------------------------------------------------------
def ground(t):
    if t[0] == 'a':
        return SA
    if t[0] == 'c':
        return X(ground(t[1]), ground(t[2]))
    if not t[1]:
        return BOT
    if t[0] == 's':
        return P(UN(*[ground(e) for e in t[1]]))
    return P(X(UN(*[ground(e) for e, _ in t[1]]), SN))


def member(t, s):
    """Does the value belong to the structure, by definition?"""
    if s == SM:
        return True
    if s[0] == 'U':
        return any(member(t, p) for p in s[1])
    if s == SA:
        return t[0] == 'a'
    if s[0] == 'x':
        return t[0] == 'c' and member(t[1], s[1]) and member(t[2], s[2])
    if s[0] == 'P':
        if t[0] == 's':
            return all(member(e, s[1]) for e in t[1])
        if t[0] == 'm':
            b = s[1]
            if b == SM:
                return True
            bs = b[1] if b[0] == 'U' else [b]
            return all(any(p == SM or p[0] == 'x' and p[2] == SN and member(e, p[1]) for p in bs) for e, _ in t[1])
    return False


def has_empty(t):
    if t[0] == 'c':
        return has_empty(t[1]) or has_empty(t[2])
    if t[0] == 's':
        return not t[1] or any(has_empty(e) for e in t[1])
    if t[0] == 'm':
        return not t[1] or any(has_empty(e) for e, _ in t[1])
    return False


def values():
    s = U.sharp_rels()
    vals = U.structured() + U.rels2() + [C(x, y) for x in U.generic_elems()[:8] for y in U.generic_elems()[3:]]
    vals += [S(x, y) for x, y in itertools.combinations(U.generic_elems(), 2)]
    vals += [M({x: 2}) for x in U.generic_elems()] + [S(x, y) for x, y in itertools.combinations(s, 2)]
    deep = A('a')
    for i in range(12):
        deep = S(deep) if i % 3 else C(deep, 'b')
        vals.append(deep)
    return U.uniq(vals)


ALGEBRAS = [(couplets, X(SM, SM), X(SA, SA)), (sets, P(SM), P(SA)), (relations, P(X(SM, SM)), P(X(SA, SA))),
            (clans, P(P(X(SM, SM))), P(P(X(SA, SA)))), (multisets, P(X(SM, SN)), P(X(SA, SN))),
            (multiclans, P(X(P(X(SM, SM)), SN)), P(X(P(X(SA, SA)), SN)))]


def gen_ground(tier):
    for t in values():
        yield (t,)
    for n in U.SIZES[::2]:
        yield (U.int_set(n),)
        yield (U.func_rel(n),)
        yield (U.row_clan(n),)
        yield (U.row_mclan(n),)
        yield (U.int_mset(n),)
        if n:
            for x in (S('a'), C('a', 'b'), M({'a': 1}), C(S('a'), 1)):
                for base in (U.int_set(n), U.func_rel(n), U.row_clan(n)):
                    yield (('s', frozenset(sorted(base[1], key=T.key)[1:] + [x])),)


def run_ground(case, ctx):
    t, = case
    want = ground(t)
    plain = not has_empty(t)
    for prep, order in (('fresh', 0), ('warm', 1), ('rebuilt', 0)):
        obj = drive.PREPS[prep](T.mk(t, order))
        got = obj.get_ground_set()
        ctx.step()
        ref = build(want)
        if plain and (got != ref or hash(got) != hash(ref) or str(got) != str(ref)):
            ctx.fail('ground set of {} ({}) is {}, expected {}'.format(T.show(t), prep, got, show(want)))
        if got != obj.get_ground_set():
            ctx.fail('ground set of {} differs the second time'.format(T.show(t)))
        for s in core():
            if s == BOT:
                continue
            ctx.step()
            is_in = member(t, s)
            le = got <= build(s)
            if is_in and not le:
                ctx.fail('{} belongs to {} but its ground set {} is not a subset'.format(T.show(t), show(s), got))
            if plain and le and not is_in:
                ctx.fail('ground set {} of {} is a subset of {}, to which it does not belong'.format(got, T.show(t), show(s)))
        if plain:
            for alg, g, ga in ALGEBRAS:
                ctx.step(2)
                if alg is sets and t[0] == 'm':
                    continue
                if alg.is_member(obj) is not (got <= alg.get_ground_set()):
                    ctx.fail('{}.is_member({}) is {}, ground set {}'.format(alg.__name__, T.show(t), alg.is_member(obj), got))
                if alg.is_absolute_member(obj) is not (got <= alg.get_absolute_ground_set()):
                    ctx.fail('{}.is_absolute_member({}) is {}, ground set {}'.format(
                        alg.__name__, T.show(t), alg.is_absolute_member(obj), got))
    ctx.state(t)
    ctx.outcome(want)
    ctx.trace()


def gen_algebras(tier):
    for i in range(len(ALGEBRAS)):
        yield (i,)


def run_algebras(case, ctx):
    alg, g, ga = ALGEBRAS[case[0]]
    ctx.step(3)
    for s, real in ((g, alg.get_ground_set()), (ga, alg.get_absolute_ground_set())):
        ref = build(s)
        if real != ref or str(real) != str(ref):
            ctx.fail('{}: ground set is {}, expected {}'.format(alg.__name__, real, show(s)))
    if not alg.get_absolute_ground_set() <= alg.get_ground_set():
        ctx.fail('{}: the absolute ground set is not a subset of the ground set'.format(alg.__name__))
    if alg.get_ground_set() <= alg.get_absolute_ground_set():
        ctx.fail('{}: the ground set is a subset of the absolute ground set'.format(alg.__name__))
    ctx.state(case)
    ctx.trace()


FAMILIES = [
    Family('pairs', gen_pairs, run_pairs),
    Family('order-laws', gen_laws, run_laws),
    Family('unions', gen_unions, run_unions, block=32),
    Family('ground-sets', gen_ground, run_ground),
    Family('algebras', gen_algebras, run_algebras),
]
