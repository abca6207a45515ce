"""C10: undefinedness: what is outside an operation's domain is undef, propagates, and obeys the raise level."""
import itertools

import algebraixlib.mathobjects as mo
import algebraixlib.extension as extension
import algebraixlib.undef as ud
from algebraixlib.algebras import clans, couplets, multiclans, multisets, properties, relations, sets

from .. import drive, history as H, ops, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S, UNDEF
from .c08 import seeds

PROPERTY = 'C10'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every operation x every argument position x (undef + ~75 values of every kind outside the domain) x 3 raise '
             'levels x checked/unchecked; all property queries on all of these values; partial operations on all '
             'combinations of representative arguments x 3 levels; all level-control histories of length <= 4 with '
             'raising calls in between; all two-operation histories that pass undef on',
    'thorough': 'other arguments vary over all representative values; level-control histories of length <= 6',
}
LEVELS = (0, 1, 2)


class Level:
    """Run a block at a raise level; always restores the default."""
    def __init__(self, level):
        self.level = level

    def __enter__(self):
        ud.RaiseOnUndef.set_level(self.level)

    def __exit__(self, *_):
        ud.RaiseOnUndef.reset()
        return False


def outcome(fn, level):
    """'X' if the call raised UndefException, else the value read back."""
    with Level(level):
        try:
            res = fn()
        except ud.UndefException:
            out = 'X'
        else:
            out = drive.read(res)
        now = ud.RaiseOnUndef.get_level()
    return out, now


def expect(ctx, what, fn, wants):
    """wants: the expected outcome ('U', 'X' or ('v', term)) per level; None: not judged."""
    for level in LEVELS:
        want = wants[level]
        ctx.step()
        got, now = outcome(fn, level)
        if now != level:
            ctx.fail('{}: the call changed the raise level from {} to {}'.format(what(), level, now))
        if want is None:
            continue
        if want == 'X':
            ok = got == 'X'
        elif want == 'U':
            ok = got is UNDEF
        else:
            ok = got is want[1] if isinstance(want[1], bool) else (not isinstance(got, bool) and got != 'X' and got == want[1])
        ctx.outcome(('X' if got == 'X' else 'U' if got is UNDEF else 'v', level))
        if not ok:
            ctx.fail('{} at raise level {}: {}, expected {}'.format(
                what(), level, 'raised UndefException' if got == 'X' else drive.shown(got),
                'UndefException' if want == 'X' else 'undef' if want == 'U' else drive.shown(want[1])))


# Operations that extend a partial operation to collections: their elementwise results may be undefined,
# which raises at level 2; whether a defined result comes out at level 2 is left open for them.
COMPOSES = {a + '.' + n for a in ('relations', 'clans', 'multiclans') for n in ('compose', 'rename', 'swap', 'project')} | {
    'relations.fill_lefts'} | {op.id for op in ops.OPS if op.alg in ('clans', 'multiclans') and
                               len(op.kinds) == 2 and not op.name.startswith('is_')}
LEFT_UNDEF = {('relations.get_rights_for_left', 1), ('multiclans.get_rights_for_left', 1)}


def representatives():
    sd = seeds('quick')
    return {k: [t for t in v] for k, v in sd.items()}


def others(op, pos, tier):
    sd = representatives()
    pick = {'rel': [RP(('a', 1), ('b', 2))], 'clan': [S(RP(('a', 1), ('b', 2)))], 'mset': [M({'a': 2})],
            'mclan': [M({RP(('a', 1), ('b', 2)): 2})], 'set': [S('a', 'b')], 'couplet': [C('a', 'b')], 'left': [A('a')]}
    if op.alg == 'multisets' and op.name.startswith('big_'):
        pick['set'] = [S(M({'a': 2}))]
    lists = []
    for i, k in enumerate(op.kinds):
        if i == pos:
            lists.append([None])
        elif tier == 'thorough':
            lists.append(sd[k])
        else:
            lists.append(pick[k] + sd[k][:3])
    return itertools.product(*lists)


def wrong_for(kind):
    vals = U.structured() + [S(S('a'), S(C('a', 'b'))), M({S(C('a', 'b')): 1, S('a'): 2}), S(C('a', 'b'), C('a', 'c'), 'd')]
    return [t for t in U.uniq(vals) if not ops.fits(kind, t)]


def gen_domain(tier):
    for op in ops.OPS:
        for pos, kind in enumerate(op.kinds):
            if kind == 'left':
                bad = []
            else:
                bad = wrong_for(kind)
            for others_ in others(op, pos, tier):
                yield (op.id, pos, others_, UNDEF)
            few = list(others(op, pos, 'quick'))[:2 if tier == 'quick' else 16]
            for t in bad:
                for others_ in few:
                    yield (op.id, pos, others_, t)


def mk_arg(t):
    return ud.Undef() if t == UNDEF else T.mk(t)


def run_domain(case, ctx):
    op, pos, others_, bad = ops.BY_ID[case[0]], case[1], case[2], case[3]
    args = [bad if i == pos else o for i, o in enumerate(others_)]
    if bad == UNDEF:
        if (op.id, pos) in LEFT_UNDEF:
            return
        wants = ('U', 'U', 'X')
        if op.id == 'relations.defined_at' and pos == 1:
            wants = ('U', None, 'X')
        if op.id in ('relations.get_left', 'relations.get_right', 'relations.functional_add') and pos == 1:
            wants = ('U', None, 'X')
        if op.alg in ('clans', 'multiclans') and op.name in ('project',) and pos > 0:
            return
    else:
        wants = ('U', 'X', 'X')
        if op.name == 'defined_at' and op.alg != 'relations':
            wants = ('U', None, 'X')
    what = lambda: '{}({})'.format(op.id, ', '.join(T.show(t) for t in args))
    for prep in ('fresh', 'warm'):
        objs = [mk_arg(t) for t in args]
        if prep == 'warm':
            for o in objs:
                if isinstance(o, mo.MathObject):
                    drive.warm_full(o)
        expect(ctx, what, lambda: drive.call(op, objs), wants)
        if op.checked:
            expect(ctx, lambda: what() + ' _checked=True', lambda: drive.call(op, objs, _checked=True), wants)
            if bad == UNDEF:
                expect(ctx, lambda: what() + ' _checked=False', lambda: drive.call(op, objs, _checked=False), wants)
        for o, t in zip(objs, args):
            if t != UNDEF and T.term(o) != t:
                ctx.fail('{}: operand {} became {}'.format(what(), T.show(t), o))
    # undef in both positions
    if bad == UNDEF and len(args) == 2 and op.kinds[1 - pos] != 'left':
        expect(ctx, lambda: op.id + '(undef, undef)', lambda: op.fn(ud.Undef(), ud.Undef()), ('U', 'U', 'X'))
    ctx.state((op.id, pos, bad, others_))
    ctx.trace()


# -- property queries ------------------------------------------------------------------------------
def gen_queries(tier):
    vals = U.structured() + [UNDEF]
    for i, t in enumerate(vals):
        yield (t,)


def run_queries(case, ctx):
    t, = case
    for q in sorted(H.ALL_QUERIES):
        fn = H.ALL_QUERIES[q]
        if t == UNDEF:
            member = q in ('rel', 'clan', 'mclan', 'absrel', 'absclan', 'absmclan', 'abscpl', 'absset', 'absmset') or \
                q.endswith('.is_member')
            wants = (('v', False),) * 3 if member else ('U', None, 'X')
        else:
            want = H.expected(q, t)
            if want is None or (T.ambiguous(t)):
                continue
            wants = ('U', None, 'X') if want is UNDEF else (('v', want),) * 3
        for prep in ('fresh', 'warm'):
            obj = mk_arg(t)
            if prep == 'warm' and t != UNDEF:
                drive.warm_full(obj)
            expect(ctx, lambda: 'query {} of {} ({})'.format(q, T.show(t), prep), lambda: fn(obj), wants)
    ctx.state(t)
    ctx.trace()


# -- partial and total operations on arguments of their domain ---------------------------------------
def gen_partial(tier):
    sd = representatives()
    for op in ops.OPS:
        for args in itertools.product(*[sd[k] for k in op.kinds]):
            if not op.partial and tier == 'quick' and hash_index(args) % 4:
                continue
            yield (op.id,) + args


def hash_index(args):
    return sum(len(T.key(a)) for a in args)


def run_partial(case, ctx):
    op, args = ops.BY_ID[case[0]], case[1:]
    want = op.ref(*args)
    if want is None:
        return
    if want is UNDEF:
        wants = ('U', 'U', 'X')
        if op.id in ('relations.get_left', 'relations.get_right', 'relations.functional_add', 'sets.single', 'multisets.single') or op.name.startswith('big_') or \
                op.name.startswith('is_') or op.name == 'defined_at':
            wants = ('U', None, 'X')
    else:
        wants = (('v', want),) + ((None,) if op.name == 'defined_at' else (('v', want),)) + ((None,) if op.id in COMPOSES else (('v', want),))
    what = lambda: '{}({})'.format(op.id, ', '.join(T.show(t) for t in args))
    for checked in ((True, False) if op.checked else (None,)):
        objs = [T.mk(t) for t in args]
        kw = {} if checked is None else {'_checked': checked}
        expect(ctx, lambda: what() + (' ' + repr(kw) if kw else ''), lambda: drive.call(op, objs, **kw), wants)
    ctx.state((op.id,) + args)
    ctx.trace()


# -- the raise level as a state machine ----------------------------------------------------------------
ACTIONS = ['set0', 'set1', 'set2', 'reset', 'call-undef', 'call-wrong', 'call-partial', 'call-good', 'make1', 'make2', 'extend']


def gen_levels(tier):
    depth = 4 if tier == 'quick' else 5
    for n in range(1, depth + 1):
        for seq in itertools.product(range(len(ACTIONS)), repeat=n):
            # a history whose calls come before any change of the level is covered by its suffixes
            if n == depth and ACTIONS[seq[0]] not in ('set0', 'set1', 'set2', 'reset'):
                continue
            yield seq


def _do(action):
    if action.startswith('set'):
        return ud.RaiseOnUndef.set_level(int(action[3]))
    if action == 'reset':
        return ud.RaiseOnUndef.reset()
    if action == 'call-undef':
        return sets.union(ud.Undef(), mo.Set('a'))
    if action == 'call-wrong':
        return sets.union(mo.Atom('a'), mo.Set('a'))
    if action == 'call-partial':
        return sets.substrict(mo.Set('b'), mo.Set('a'))
    if action == 'call-good':
        return sets.union(mo.Set('b'), mo.Set('a'))
    if action == 'make1':
        return ud.make_or_raise_undef()
    if action == 'make2':
        return ud.make_or_raise_undef(2)
    return extension.binary_extend(mo.Set(mo.Set('a'), mo.Set('b')), mo.Set(mo.Set('a')),
                                   lambda x, y: ud.Undef() if x != y else x)


RAISES_AT = {'call-undef': 2, 'call-wrong': 1, 'call-partial': 2, 'make1': 1, 'make2': 2}


def run_levels(case, ctx):
    model = 0
    ud.RaiseOnUndef.reset()
    try:
        for k, a in enumerate(case):
            action = ACTIONS[a]
            if action.startswith('set'):
                model = int(action[3])
            elif action == 'reset':
                model = 0
            ctx.step()
            try:
                res = _do(action)
                raised = False
            except ud.UndefException:
                raised = True
            want = action in RAISES_AT and RAISES_AT[action] <= model
            hist = ' '.join(ACTIONS[x] for x in case[:k + 1])
            if raised != want:
                ctx.fail('after [{}]: {} raised, expected {}'.format(hist, raised, want))
            if not raised and action in RAISES_AT and res is not ud.Undef():
                ctx.fail('after [{}]: result {!r} is not undef'.format(hist, res))
            if action == 'extend' and T.term(res) != S(S('a')):
                ctx.fail('after [{}]: result {!r}'.format(hist, res))
            if ud.RaiseOnUndef.get_level() != model:
                ctx.fail('after [{}]: level {}, expected {}'.format(hist, ud.RaiseOnUndef.get_level(), model))
            ctx.state((model, action, raised))
    finally:
        ud.RaiseOnUndef.reset()
    ctx.trace()


# -- undef flows through compositions of operations ------------------------------------------------------
def gen_flow(tier):
    for op1 in ops.OPS:
        for op2 in ops.OPS:
            for pos in range(len(op2.kinds)):
                if op2.kinds[pos] != 'left':
                    yield (op1.id, op2.id, pos)


def undef_args(op):
    """Arguments on which the operation is undefined (at level 0)."""
    bad = {'set': A('a'), 'rel': S('a'), 'clan': S('a'), 'mset': A('a'), 'mclan': M({'a': 1}), 'couplet': A('a'), 'left': A('a')}
    return [T.mk(bad[k]) for k in op.kinds]


def run_flow(case, ctx):
    op1, op2, pos = ops.BY_ID[case[0]], ops.BY_ID[case[1]], case[2]
    r1 = op1.fn(*undef_args(op1))
    ctx.step()
    if r1 is not ud.Undef():
        ctx.fail('{} outside its domain gives {!r}'.format(op1.id, r1))
    for others_ in others(op2, pos, 'quick'):
        objs = [r1 if i == pos else T.mk(o) for i, o in enumerate(others_)]
        expect(ctx, lambda: '{}({}(...)) with undef in position {}'.format(op2.id, op1.id, pos),
               lambda: op2.fn(*objs), ('U', 'U', 'X'))
        break
    ctx.state(case)
    ctx.trace()


# -- the undef object ------------------------------------------------------------------------------------
FORBIDDEN = {
    'u == u': lambda u: u == u, 'u != u': lambda u: u != u, 'u == Atom': lambda u: u == mo.Atom(1), 'u != Atom': lambda u: u != mo.Atom(1),
    'u == None': lambda u: u == None, 'bool(u)': bool, 'not u': lambda u: not u, 'u and 1': lambda u: u and 1,     # noqa
    'u == 0': lambda u: u == 0, 'u != Set': lambda u: u != mo.Set('a'), 'if u': lambda u: 1 if u else 2,
}


def gen_object(tier):
    for n in FORBIDDEN:
        for level in LEVELS:
            yield ('forbidden', n, level)
    yield ('singleton', '', 0)
    yield ('kinds', '', 0)


def run_object(case, ctx):
    kind, n, level = case
    ctx.step()
    if kind == 'forbidden':
        with Level(level):
            try:
                res = FORBIDDEN[n](ud.Undef())
            except TypeError:
                res = TypeError
        if res is not TypeError:
            ctx.fail('{} gives {!r} instead of TypeError'.format(n, res))
    elif kind == 'singleton':
        objs = [ud.Undef(), ud.make_undef(), ud.make_or_raise_undef(), ud.make_or_raise_undef(2), ud.make_or_raise_undef(1),
                ud.make_or_raise_undef2(ud.Undef()), ud.make_or_raise_undef2(mo.Atom(1)), sets.union(mo.Atom(1), mo.Atom(2)),
                sets.substrict(mo.Set('a'), mo.Set()), properties.is_functional(mo.Atom(1))]
        import copy
        if any(o is not ud.Undef() for o in objs):
            ctx.fail('there is more than one undef object: {}'.format([o is ud.Undef() for o in objs]))
    else:
        u = ud.Undef()
        for f in T.facts(EMPTY):
            pass
        for name in ('is_atom', 'is_couplet', 'is_set', 'is_multiset'):
            ctx.step()
            if getattr(u, name) is not False:
                ctx.fail('undef.{} is {!r}'.format(name, getattr(u, name)))
        for name in [n for n in dir(u) if n.startswith('cached_is_')]:
            ctx.step()
            val = getattr(u, name)
            if not name.startswith('cached_is_not_') and val is not False:
                ctx.fail('undef.{} is {!r}'.format(name, val))
        if (repr(u), str(u)) != ('Undef()', 'undef'):
            ctx.fail('undef prints as {!r} / {}'.format(u, u))
        for fn in (sets.is_member, multisets.is_member, couplets.is_member, relations.is_member, clans.is_member, multiclans.is_member):
            if fn(u) is not False:
                ctx.fail('undef is a member of {}'.format(fn.__module__))
        for mod in (sets, multisets, couplets, relations, clans, multiclans):
            ctx.step()
            if mod.is_member_or_undef(u) is not True or mod.is_absolute_member(u) is not False:
                ctx.fail('{}.is_member_or_undef(undef) is {!r}'.format(mod.__name__, mod.is_member_or_undef(u)))
            for t in U.structured():
                o = T.mk(t)
                if mod.is_member_or_undef(o) is not mod.is_member(o):
                    ctx.fail('{}.is_member_or_undef({}) differs from is_member'.format(mod.__name__, T.show(t)))
    ctx.state(case)
    ctx.outcome(n)
    ctx.trace()


# -- extensions drop undefined results at every level --------------------------------------------------------
def gen_extend(tier):
    base = [EMPTY, S('a'), S('a', 'b'), S('a', 'b', 'c')]
    mbase = [EMPTYM, M({'a': 2}), M({'a': 1, 'b': 3})]
    n = 3
    for t in base + mbase:
        for mask in range(2 ** n):
            for level in LEVELS:
                yield ('u', t, mask, level)
    for t, u in itertools.product(base, base):
        for mask in range(2 ** 4):
            yield ('b', t, u, mask)
    for t, u in itertools.product(mbase, mbase):
        for mask in range(2 ** 4):
            yield ('b', t, u, mask)


def _idx(o):
    return 'abc'.index(o.value)


def run_extend(case, ctx):
    U_ = ud.Undef()
    if case[0] == 'u':
        _, t, mask, level = case
        obj = T.mk(t)
        op = lambda e: e if mask >> _idx(e) & 1 else U_
        keep = lambda e: mask >> 'abc'.index(e[2]) & 1
        with Level(level):
            ctx.step(2)
            if t[0] == 's':
                r1 = extension.unary_extend(obj, op)
                r2 = extension.unary_multi_extend(obj, op)
                w1 = T.SI(e for e in t[1] if keep(e))
                w2 = T.MI({e: 1 for e in t[1] if keep(e)})
                if T.term(r1) != w1:
                    ctx.fail('unary_extend kept {} instead of {}'.format(r1, T.show(w1)))
            else:
                r2 = extension.unary_multi_extend(obj, op)
                w2 = T.MI({e: n for e, n in t[1] if keep(e)})
            if T.term(r2) != w2:
                ctx.fail('unary_multi_extend kept {} instead of {}'.format(r2, T.show(w2)))
    else:
        _, t, u, mask = case
        a, b = T.mk(t), T.mk(u)
        op = lambda x, y: mo.Couplet(x, y) if mask >> ((_idx(x) + 2 * _idx(y)) % 4) & 1 else U_
        keep = lambda x, y: mask >> (('abc'.index(x[2]) + 2 * 'abc'.index(y[2])) % 4) & 1
        for level in LEVELS:
            with Level(level):
                ctx.step()
                if t[0] == 's':
                    r = extension.binary_extend(a, b, op)
                    w = T.SI(('c', x, y) for x in t[1] for y in u[1] if keep(x, y))
                else:
                    r = extension.binary_multi_extend(a, b, op)
                    d = {}
                    for x, m in t[1]:
                        for y, n in u[1]:
                            if keep(x, y):
                                d[('c', x, y)] = m * n
                    w = T.MI(d)
                if T.term(r) != w:
                    ctx.fail('extension of {} and {} is {} instead of {}'.format(T.show(t), T.show(u), r, T.show(w)))
    ctx.state(case)
    ctx.trace()


# -- an exception of the elementwise operation is not swallowed ------------------------------------------------
def gen_raise(tier):
    sets_, msets = [EMPTY, S('a'), S('a', 'b'), S('a', 'b', 'c')], [EMPTYM, M({'a': 2}), M({'a': 1, 'b': 3, 'c': 1})]
    for t in sets_ + msets:
        for mask in range(2 ** 3):
            for level in LEVELS:
                yield ('u', t, None, mask, level)
    for group in (sets_, msets):
        for t, u in itertools.product(group, group):
            for mask in range(2 ** 4):
                for level in LEVELS:
                    yield ('b', t, u, mask, level)
    for t in U.subsets([C(1, 2), A('q'), S('q')], 0, 3):
        for level in LEVELS:
            yield ('lib', t, None, 0, level)


def run_raise(case, ctx):
    kind, t, u, mask, level = case
    a = T.mk(t)
    if kind == 'lib':
        # A library operation that is undefined for some elements: wrong kinds raise from level 1 on.
        bad = [e for e in t[1] if e[0] != 'c']
        mset = T.MI({e: 2 for e in t[1]})
        for name, fn, arg in (('unary_extend', extension.unary_extend, a), ('unary_multi_extend', extension.unary_multi_extend, a),
                              ('unary_multi_extend', extension.unary_multi_extend, T.mk(mset)),
                              ('binary_extend', lambda x, op: extension.binary_extend(x, x, lambda p, q: op(p)), a),
                              ('binary_multi_extend', lambda x, op: extension.binary_multi_extend(x, x, lambda p, q: op(p)), T.mk(mset))):
            ctx.step()
            with Level(level):
                try:
                    res = fn(arg, couplets.transpose)
                except ud.UndefException:
                    res = 'raised'
            if (res == 'raised' if isinstance(res, str) else False) is not bool(bad and level >= 1):
                ctx.fail('{} of transpose over {} at raise level {}: {}'.format(name, T.show(t), level, res))
        ctx.state(case)
        ctx.trace()
        return
    elems = [e if t[0] == 's' else e[0] for e in t[1]]
    if kind == 'u':
        def op(e):
            if mask >> _idx(e) & 1:
                raise ud.UndefException()
            return e
        hit = any(mask >> 'abc'.index(e[2]) & 1 for e in elems)
        calls = [lambda: extension.unary_extend(a, op)] if t[0] == 's' else []
        calls.append(lambda: extension.unary_multi_extend(a, op))
    else:
        b = T.mk(u)
        elems2 = [e if u[0] == 's' else e[0] for e in u[1]]

        def op(x, y):
            if mask >> ((_idx(x) + 2 * _idx(y)) % 4) & 1:
                raise ud.UndefException()
            return x
        hit = any(mask >> (('abc'.index(x[2]) + 2 * 'abc'.index(y[2])) % 4) & 1 for x in elems for y in elems2)
        calls = [(lambda: extension.binary_extend(a, b, op)) if t[0] == 's' else (lambda: extension.binary_multi_extend(a, b, op))]
    for call in calls:
        ctx.step()
        with Level(level):
            try:
                res = call()
            except ud.UndefException:
                res = None
        if (res is None) is not hit:
            ctx.fail('extension over {} {} at level {}: the elementwise operation {}, the extension gives {}'.format(
                T.show(t), T.show(u) if u else '', level, 'raised the undef exception' if hit else 'raised nothing', res))
    ctx.state(case)
    ctx.outcome(('raise', hit))
    ctx.trace()


FAMILIES = [
    Family('undef-object', gen_object, run_object),
    Family('level-control', gen_levels, run_levels, block=16),
    Family('outside-domain', gen_domain, run_domain, block=8),
    Family('queries', gen_queries, run_queries),
    Family('partial-operations', gen_partial, run_partial, block=8),
    Family('undef-flow', gen_flow, run_flow, block=8),
    Family('extensions-drop-undef', gen_extend, run_extend, block=4),
    Family('extensions-propagate-exceptions', gen_raise, run_raise, block=8),
]
