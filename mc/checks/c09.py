"""C09: values never change: no operation alters an operand, a part of it, or a caller's container."""
import collections
import copy
import itertools

import algebraixlib.extension as extension
import algebraixlib.mathobjects as mo
import algebraixlib.partition as partition
from algebraixlib.algebras import clans, multiclans, multisets, relations, sets
from algebraixlib.util import rdf

from .. import drive, history as H, ops, terms as T, universe as U, uses
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S
from . import c07

PROPERTY = 'C09'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'every one of ~150 uses of a value on every value of 4 kinds in fresh and queried state, repeated; all '
             'pairs of uses on representative values; every operation on all pairs of 9 seeds per kind and on all pairs of wider '
             'universes (35 multisets, 32 sets, 16 relations, 26 clans, 33 multiclans), of ~70 values of middle size and of 3 to 300 elements; all '
             'histories of depth 2 over shared objects from ~130 seed pairs; every constructor with the caller '
             'changing the container afterwards; copies and deep copies of ~140 values, each used in every way; sizes up to 300',
    'thorough': 'all triples of uses on representative values, all seed pairs, histories of depth 3',
}


class Frozen:
    """A snapshot of an object and of everything inside it: values, hashes, identities of the parts."""
    def __init__(self, obj, t):
        self.obj, self.t = obj, t
        self.parts = self.identities(obj)
        self.hash = hash(T.mk(t))

    @staticmethod
    def identities(obj):
        if isinstance(obj, mo.Multiset):
            return (id(obj.data), tuple((id(e), n) for e, n in obj.data.items())) + tuple(Frozen.identities(e) for e in obj.data)
        if isinstance(obj, mo.Set):
            return (id(obj.data), tuple(id(e) for e in obj.data)) + tuple(Frozen.identities(e) for e in obj.data)
        if isinstance(obj, mo.Couplet):
            return (id(obj.left), id(obj.right), Frozen.identities(obj.left), Frozen.identities(obj.right))
        return (id(obj), obj.value if isinstance(obj, mo.Atom) else None)

    def check(self, ctx, how):
        ctx.step()
        try:
            now = T.term(self.obj)
        except T.Malformed as e:
            ctx.fail('{}: {} became malformed: {}'.format(how(), T.show(self.t), e))
        if now != self.t:
            ctx.fail('{}: {} became {}'.format(how(), T.show(self.t), T.show(now)))
        if hash(self.obj) != self.hash:
            ctx.fail('{}: the hash of {} changed'.format(how(), T.show(self.t)))


def gen_uses(tier):
    for t in U.uniq(U.structured() + [S('a', 'b', 'c'), M({RP(('a', 1), ('b', 1)): 2, RP(('a', 1), ('b', 2)): 1}),
                                      S(RP(('a', 1), ('b', 1)), RP(('a', 1), ('b', 2)))]):
        yield ('all', t)
    reps = [S('a', 'b'), RP(('a', 1), ('b', 2)), RP(('a', 1), ('a', 2)), S(RP(('a', 1), ('b', 1)), RP(('a', 2), ('b', 1))), M({'a': 2, 'b': 1}),
            M({RP(('a', 1)): 2, RP(('a', 2)): 1}), M({C('a', 'b'): 2}), C('a', 'b'), EMPTY, EMPTYM, M({RP(('a', 1), ('b', 1)): 2})]
    for t in reps:
        for u in uses.uses_of(t):
            yield ('pairs', t, u)
    for n in U.SIZES:
        for t in (U.int_set(n), U.int_mset(n), U.func_rel(n), U.row_clan(n), U.row_mclan(n)):
            if n > 2:
                yield ('big', t)


HEAVY = {'binary-extend', 'binary-multi'}


def run_uses(case, ctx):
    mode, t = case[0], case[1]
    if mode == 'all':
        for prep in ('fresh', 'warm'):
            shared = drive.PREPS[prep](T.mk(t))
            fs = Frozen(shared, t)
            for u in uses.uses_of(t):
                own = drive.PREPS[prep](T.mk(t))
                f = Frozen(own, t)
                how = lambda: 'after {} of {} [{}]'.format(u, T.show(t), prep)
                r1 = uses.USES[u][1](own)
                f.check(ctx, how)
                r2 = uses.USES[u][1](own)
                f.check(ctx, how)
                uses.USES[u][1](shared)
                fs.check(ctx, how)
                if f.parts != Frozen.identities(own):
                    ctx.fail('{}: the parts of the value were exchanged'.format(how()))
                same_result(ctx, r1, r2, how)
                ctx.outcome(u)
            ctx.state((t, H.deep_flags(shared)))
    elif mode == 'pairs':
        u = case[2]
        for v in uses.uses_of(t):
            for w in ([v] if ctx.tier == 'quick' else uses.uses_of(t)[::5]):
                own = T.mk(t)
                f = Frozen(own, t)
                fn = uses.USES
                a = fn[u][1](own)
                fn[v][1](own)
                if w != v:
                    fn[w][1](own)
                b = fn[u][1](own)
                how = lambda: 'after {}, {}, {}, {} of {}'.format(u, v, w, u, T.show(t))
                f.check(ctx, how)
                same_result(ctx, a, b, how)
    else:
        for prep in ('fresh', 'shallow'):
            own = drive.PREPS[prep](T.mk(t))
            f = Frozen(own, t)
            for u in uses.uses_of(t):
                if u in HEAVY and len(t[1]) > 60 or u in ('latex', 'latex-short', 'html', 'html2', 'mo_to_str', 'mo_to_str-abbr') and len(t[1]) > 100:
                    continue
                uses.USES[u][1](own)
                f.check(ctx, lambda: 'after {} of {} [{}]'.format(u, T.show(t)[:200], prep))
    ctx.trace()


def same_result(ctx, a, b, how):
    if isinstance(a, tuple):
        for x, y in zip(a, b):
            same_result(ctx, x, y, how)
        return
    ctx.step()
    if isinstance(a, mo.MathObject):
        if T.term(a) != T.term(b):
            ctx.fail('{}: asked again, the result is {} instead of {}'.format(how(), T.show(T.term(b)), T.show(T.term(a))))
    elif drive.read(a) != drive.read(b) and drive.read(a) is not drive.read(b):
        if not isinstance(a, (list, type(None))):
            ctx.fail('{}: asked again, the result is {!r} instead of {!r}'.format(how(), b, a))


# Operations with two operands ---------------------------------------------------------------------------
def gen_ops(tier):
    sd = c07.seeds(tier)
    for op_id, kinds in c07.all_ops():
        if len(kinds) < 2:
            continue
        cut = 9 if tier == 'quick' else None
        for args in itertools.product(*[sd[k][:cut] for k in kinds]):
            yield (op_id,) + args


def run_ops(case, ctx):
    op_id, args = case[0], case[1:]
    fn = H.EXTRA_OR_OP(op_id)
    for prep in ('fresh', 'warm', 'rebuilt'):
        objs = [drive.PREPS[prep](T.mk(t)) if t[0] != 'a' else T.mk(t) for t in args]
        fr = [Frozen(o, t) for o, t in zip(objs, args)]
        how = lambda: '{}({}) [{}]'.format(op_id, ', '.join(map(T.show, args)), prep)
        r1 = fn(*objs)
        f1 = Frozen(r1, T.term(r1)) if isinstance(r1, mo.MathObject) else None
        for f in fr:
            f.check(ctx, how)
        if f1:
            # use the result in every way: the operands it may share data with must not change
            for u in uses.uses_of(f1.t):
                if u.startswith('?') or u in ('index', 'call', 'iter', 'unary-multi', 'mset-of-data', 'multiplicity', 'contains', 'sorted', 'slice', 'partition'):
                    uses.USES[u][1](r1)
            for f in fr + [f1]:
                f.check(ctx, lambda: how() + ', after using the result')
        r2 = fn(*objs)
        same_result(ctx, r1, r2, how)
        for f in fr:
            f.check(ctx, lambda: how() + ' again')
            if f.parts != Frozen.identities(f.obj):
                ctx.fail('{}: the parts of an operand were exchanged'.format(how()))
        if f1:
            f1.check(ctx, lambda: how() + ' (first result)')
            ctx.state((op_id, args, prep, f1.t))
    ctx.trace()


# Histories: all objects stay alive, all of them are checked after every step ---------------------------
def gen_hist(tier):
    for prep in ('fresh', 'shallow'):
        for p in c07.hist_pairs(tier):
            yield (prep, tier) + p


def run_hist(case, ctx):
    prep, tier, a, b = case
    opl = c07.all_ops()
    pool = [(T.show(t), drive.PREPS[prep](T.mk(t)), t) for t in (a, b)]
    fr = [Frozen(o, t) for _, o, t in pool]
    extra = ("'a'", mo.Atom('a'), A('a'))
    level = list(pool)
    seen = set(t for _, _, t in pool)
    for depth in (1, 2) if tier == 'quick' else (1, 2, 3):
        new = []
        for name, obj, t in level:
            for op_id, kinds in opl:
                if len(kinds) == 1:
                    tuples = [((name, obj, t),)]
                elif len(kinds) == 2:
                    tuples = [((name, obj, t), p) for p in pool[:2] + [extra, (name, obj, t)]] + [(p, (name, obj, t)) for p in pool[:2]]
                else:
                    tuples = [((name, obj, t), extra, extra)]
                for tup in tuples:
                    tv = [x[2] for x in tup]
                    if not all(ops.fits(k, x) for k, x in zip(kinds, tv)) or op_id in c07.SKIP_BIG and len(tv[0][1]) > 3:
                        continue
                    res = H.EXTRA_OR_OP(op_id)(*[x[1] for x in tup])
                    how = lambda: '[{}] {}({})'.format(prep, op_id, ', '.join(x[0] for x in tup))
                    for f in fr[:2]:
                        f.check(ctx, how)
                    for x in tup:
                        if T.term(x[1]) != x[2]:
                            ctx.fail('{}: {} became {}'.format(how(), T.show(x[2]), T.show(T.term(x[1]))))
                    if isinstance(res, mo.MathObject) and not isinstance(res, mo.Atom):
                        tr = T.term(res)
                        fr.append(Frozen(res, tr))
                        if tr[0] in 'sm' and len(tr[1]) <= 6 and tr not in seen:
                            seen.add(tr)
                            new.append((how(), res, tr))
        for f in fr:
            f.check(ctx, lambda: 'after all operations of depth {} on {} and {} [{}]'.format(depth, T.show(a), T.show(b), prep))
        level = new
    for f in fr[:400]:
        ctx.state(f.t)
    ctx.trace()


# The caller's containers -----------------------------------------------------------------------------
ITEMS = ['a', 1, True, ('t', RP(('a', 1))), ('t', C('a', 'b'))]


def gen_containers(tier):
    for k in range(0, 4):
        for seq in itertools.product(range(len(ITEMS)), repeat=k):
            yield ('seq', seq)
    for k in range(0, 4):
        for ls in itertools.permutations(['a', 'b', 1], k):
            yield ('dict', ls)


def run_containers(case, ctx):
    kind, seq = case

    def expect(obj, want, how):
        ctx.step()
        if T.term(obj) != want or hash(obj) != hash(T.mk(want)):
            ctx.fail('{}: the value is {} instead of {}'.format(how, T.show(T.term(obj)), T.show(want)))
    if kind == 'seq':
        def args():
            return [ITEMS[i] if not isinstance(ITEMS[i], tuple) else T.mk(ITEMS[i][1]) for i in seq]
        ts = [A(ITEMS[i]) if not isinstance(ITEMS[i], tuple) else ITEMS[i][1] for i in seq]
        wset, cnt = ('s', frozenset(ts)), collections.Counter(ts)
        wms = ('m', frozenset(cnt.items()))
        for direct in (False, True):
            for cls, want in ((mo.Set, wset), (mo.Multiset, wms)):
                lst = [mo.auto_convert(x) for x in args()] if direct else args()
                before = list(lst)
                obj = cls(lst, direct_load=direct)
                if len(lst) != len(before) or any(x is not y for x, y in zip(lst, before)):
                    ctx.fail('{}({}) changed the list it was given'.format(cls.__name__, before))
                del lst[:]
                lst.append(mo.Atom('changed'))
                expect(obj, want, '{}(list), list changed later'.format(cls.__name__))
                hash(obj)
                lst.extend(before)
                expect(obj, want, '{}(list), list changed later'.format(cls.__name__))
            st = set(mo.auto_convert(x) for x in args())
            obj = mo.Set(st, direct_load=direct)
            st.clear()
            expect(obj, wset, 'Set(set), set changed later')
            for ctr in (dict, collections.Counter, collections.OrderedDict):
                d = ctr()
                for x in args():
                    x = mo.auto_convert(x)
                    d[x] = d.get(x, 0) + 1
                items = list(d.items())
                obj = mo.Multiset(d, direct_load=direct)
                other = mo.Multiset(d, direct_load=direct)
                if list(d.items()) != items:
                    ctx.fail('Multiset({}) changed its argument'.format(ctr.__name__))
                for x in list(d):
                    d[x] += 5
                d[mo.Atom('changed')] = 1
                expect(obj, wms, 'Multiset({}), container changed later'.format(ctr.__name__))
                d.clear()
                expect(obj, wms, 'Multiset({}), container changed later'.format(ctr.__name__))
                expect(other, wms, 'Multiset({}), container changed later'.format(ctr.__name__))
                m1 = multisets.add(obj, other)
                expect(obj, wms, 'Multiset({}) after add'.format(ctr.__name__))
                m1 = mo.Multiset(obj.data, direct_load=direct)
                if m1.data is obj.data:
                    ctx.fail('two multisets share one mutable container')
                expect(m1, wms, 'Multiset(multiset.data)')
        vals = args()
        before = list(vals)
        c = clans.from_set('x', *vals)
        c0 = T.term(c)
        vals.clear()
        expect(c, c0, 'clans.from_set')
        t = clans.diag(*before)
        if T.term(t) != S(ops.r_diag(*ts)):
            ctx.fail('clans.diag')
    else:
        base = {k: 'v{}'.format(i) for i, k in enumerate(seq)}
        for name, fn, wrap in (('relations.from_dict', relations.from_dict, lambda t: t), ('clans.from_dict', clans.from_dict, S),
                               ('multiclans.from_dict', multiclans.from_dict, lambda t: M({t: 1}))):
            for ctr in (dict, collections.OrderedDict):
                d = ctr(base)
                obj = fn(d)
                want = wrap(('s', frozenset(C(k, v) for k, v in base.items())))
                if list(d.items()) != list(base.items()):
                    ctx.fail('{} changed its argument'.format(name))
                expect(obj, want, name)
                for k in list(d):
                    d[k] = 'changed'
                d['new'] = 1
                expect(obj, want, name + ', dict changed later')
        graph = T.mk(S(RP(('a', 'v0'), ('b', 'v1'), (1, 'v2')), RP(('a', 'v0'), ('b', 'x'), (1, 'v2')), RP(('a', 'y'), ('b', 'x'), (1, 'v2'))))
        tg = T.term(graph)
        pat, proj = dict(base), {k: '?' + str(k) for k in seq}
        p0, q0 = dict(pat), dict(proj)
        r1 = rdf.match_and_project(graph, pat, proj)
        r1t = T.term(r1)
        rdf.pattern_match(graph, pat)
        if pat != p0 or proj != q0 or list(pat) != list(p0):
            ctx.fail('rdf matching changed the pattern or projection it was given')
        pat['zz'] = 1
        proj['a'] = '?changed'
        expect(r1, r1t, 'rdf.match_and_project, arguments changed later')
        expect(graph, tg, 'rdf.match_and_project, graph')
        again = rdf.match_and_project(graph, p0, q0)
        expect(again, r1t, 'rdf.match_and_project again')
        none1, none2 = rdf.match_and_project(graph), rdf.match_and_project(graph)
        expect(none2, T.term(none1), 'rdf.match_and_project with default arguments')
        # csv import options, export orders
        import io
        from algebraixlib.import_export import csv as ccsv
        text = ','.join(map(str, seq)) + '\n' + ','.join('1' for _ in seq) + '\n' if seq else ''
        if seq:
            types, cols = {str(k): int for k in seq}, [str(k) for k in seq]
            for dup in (False, True):
                ccsv.import_csv(io.StringIO(text), types=types, has_dup_rows=dup)
                ccsv.import_csv(io.StringIO(text), columns=cols, has_dup_rows=dup)
            ccsv.import_csv(io.StringIO(text), types=types, index_column='idx')
            if types != {str(k): int for k in seq} or cols != [str(k) for k in seq]:
                ctx.fail('import_csv changed its options')
            lefts = [str(k) for k in seq][::-1]
            keep = list(lefts)
            ccsv.export_csv(graph, io.StringIO(), ordered_lefts=lefts)
            from algebraixlib.import_export import rdf as ierdf
            la = [mo.Atom(k) for k in keep]
            ierdf.export_table(io.StringIO(), la, graph)
            if lefts != keep or [x.value for x in la] != keep:
                ctx.fail('an export changed the columns it was given')
            expect(graph, tg, 'export')
    ctx.state(case)
    ctx.trace()


# -- copies ----------------------------------------------------------------------------------------------------
def gen_copies(tier):
    for t in U.uniq(U.structured() + U.rels2() + U.clans2(1)):
        for how in ('copy', 'deepcopy', 'in-list', 'in-dict', 'twice'):
            yield (how, t)


COPY = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'in-list': lambda o: copy.deepcopy([o, [o]])[1][0],
        'in-dict': lambda o: copy.deepcopy({'k': (o, 1)})['k'][0], 'twice': lambda o: copy.copy(copy.copy(o))}


def run_copies(case, ctx):
    how, t = case
    names = sorted(uses.USES)
    for prep in ('fresh', 'warm', 'shallow'):
        obj = drive.PREPS[prep](T.mk(t))
        snap = Frozen(obj, t)
        dup = COPY[how](obj)
        ctx.step(2)
        if not (dup == obj) or dup != obj or hash(dup) != hash(obj) or type(dup) is not type(obj):
            ctx.fail('{} of {} [{}] is not equal to it'.format(how, T.show(t), prep))
        H.check_object(ctx, dup, t, lambda: '{} of {} [{}]'.format(how, T.show(t), prep))
        for a, b in ((dup, obj), (obj, dup)):
            for n in names:
                try:
                    uses.USES[n](a)
                except Exception:       # pylint: disable=broad-except
                    pass                # what raises is the subject of other families
                H.check_object(ctx, b, t, lambda: '{} of {} [{}], then {} of the other'.format(how, T.show(t), prep, n))
        snap.check(ctx, lambda: how)
        H.check_object(ctx, dup, t, lambda: '{} of {} [{}], used'.format(how, T.show(t), prep))
    ctx.state(case)
    ctx.trace()


# All pairs of wide universes: the operands are what they were, the operation repeats -------------------------
def wide(tier):
    e = [A('a'), A(1), C('a', 'b'), EMPTY]
    r = U.sharp_rels()
    return {'mset': list(U.multisubsets(e[:3], 3, 2 if tier == 'quick' else 3)) + list(U.multisubsets(e[:2], 2, 3)) + [M({EMPTY: 2}), M({'a': 1, S('a'): 2})],
            'set': list(U.subsets(e + [r[1]])), 'rel': U.rels2(), 'clan': list(U.subsets([r[0], r[1], r[2], r[5], r[8]], 0, 3)),
            'mclan': list(U.multisubsets([r[0], r[1], r[5], r[8]], 3 if tier != 'quick' else 2, 2)) + [M({r[1]: 2, r[5]: 1, r[8]: 1})],
            'left': [A('a'), A('b'), S('a')], 'couplet': U.couplets_over([A('a'), A('b')])}


def two_operands():
    return [(op_id, kinds) for op_id, kinds in c07.all_ops() if len(kinds) == 2] + \
        [(op.id, op.kinds) for op in ops.OPS if op.name.startswith('is_') and len(op.kinds) == 2]


def medium():
    return {'mset': U.medium_msets()[::3], 'set': U.medium_sets(), 'rel': U.medium_rels()[::2], 'clan': U.medium_clans()[::2], 'mclan': U.medium_mclans()[::3],
            'left': [A('a'), A(1), S('x')], 'couplet': [C('a', 1), C('new', 'a')]}


def gen_medium(tier):
    w = medium()
    for op_id, (k1, k2) in two_operands():
        if k1 in w and k2 in w:
            for i in range(len(w[k1])):
                yield (op_id, i, 'medium')


def gen_wide(tier):
    w = wide(tier)
    for op_id, (k1, k2) in two_operands():
        if k1 in w and k2 in w:
            for i in range(len(w[k1])):
                yield (op_id, i)


def unchanged(ctx, op_id, t, u, prep):
    fn = H.EXTRA_OR_OP(op_id)
    a, b = drive.PREPS[prep](T.mk(t)), drive.PREPS[prep](T.mk(u))
    ha, hb = hash(T.mk(t)), hash(T.mk(u))
    how = lambda: '{}({}, {}) [{}]'.format(op_id, T.show(t)[:400], T.show(u)[:400], prep)
    before = drive.read(fn(a, b))
    ctx.step(2)
    for o, x, h in ((a, t, ha), (b, u, hb)):
        if T.term(o) != x or hash(o) != h:
            ctx.fail('{}: an operand became {}'.format(how(), T.show(T.term(o))[:400]))
    res = fn(a, b)
    if drive.read(res) != before:
        ctx.fail('{} gives {} the second time, {} the first time'.format(how(), drive.shown(drive.read(res)), drive.shown(before)))
    # the result as operand of the same operation: neither it nor the operands change
    if isinstance(res, mo.MathObject) and type(res) is type(a):
        fn(res, b)
        for o, x in ((res, before), (a, t), (b, u)):
            if T.term(o) != x:
                ctx.fail('{}: after using the result, {} became {}'.format(how(), T.show(x)[:400], T.show(T.term(o))[:400]))


def run_wide(case, ctx):
    op_id, i = case[:2]
    w = medium() if case[2:] else wide(ctx.tier)
    k1, k2 = dict(two_operands())[op_id]
    t = w[k1][i]
    for u in w[k2]:
        for prep in ('fresh', 'shallow'):
            unchanged(ctx, op_id, t, u, prep)
    ctx.state(case)
    ctx.trace()


def gen_sizes(tier):
    for op_id, (k1, k2) in two_operands():
        for n in U.SIZES:
            if n > 2 and (n <= 33 or op_id.split('.')[0] in ('sets', 'multisets', 'relations') or tier != 'quick' and n <= 101):
                yield (op_id, n)


def big(kind, n):
    # Two values per kind: one of n elements, one with few.
    if kind in ('set', 'any'):
        return [U.int_set(n), S(0), S('x')]
    if kind == 'mset':
        return [U.int_mset(n), M({0: 5}), M({0: 1, 'x': 1}), M({n - 1: 9})]
    if kind == 'rel':
        return [U.func_rel(n), S(C('k0', 1000)), U.chain_rel(min(n, 17)), RP(('k0', 'z'))]
    if kind == 'clan':
        return [U.row_clan(n), U.row_clan(1), S(RP(('c1', 0)))]
    if kind == 'mclan':
        return [U.row_mclan(n), ('m', frozenset((r, 3) for r in U.row_clan(1)[1])), M({RP(('c1', 0)): 2})]
    return {'left': [A('k0'), A('c1')], 'couplet': [C('k0', 'z'), C('new', 1)]}.get(kind, [])


def run_sizes(case, ctx):
    op_id, n = case
    k1, k2 = dict(two_operands())[op_id]
    for i, t in enumerate(big(k1, n)):
        for j, u in enumerate(big(k2, n)):
            if i == j == 0 and k1 in ('clan', 'mclan') and n > 12:
                continue                # the cross operations are quadratic in the number of rows
            for prep in ('fresh', 'shallow'):
                unchanged(ctx, op_id, t, u, prep)
    ctx.state(case)
    ctx.trace()


FAMILIES = [
    Family('uses', gen_uses, run_uses),
    Family('operations', gen_ops, run_ops, block=8),
    Family('wide-pairs', gen_wide, run_wide, block=4),
    Family('medium', gen_medium, run_wide, block=1),
    Family('sizes', gen_sizes, run_sizes, block=2),
    Family('histories', gen_hist, run_hist),
    Family('copies', gen_copies, run_copies),
    Family('containers', gen_containers, run_containers, block=4),
]
