"""C13: extending an operation to sets and multisets is the elementwise definition."""
import itertools

import algebraixlib.extension as extension
import algebraixlib.mathobjects as mo
import algebraixlib.undef as ud
from algebraixlib.algebras import couplets, multisets, relations, sets

from .. import drive, history as H, ops, terms as T, universe as U
from ..core import Family
from ..terms import A, C, EMPTY, EMPTYM, M, RP, S, UNDEF

PROPERTY = 'C13'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all functions from <= 3 elements of 5 mixed ones into {two values, the element itself, undef}, on sets and multisets with '
             'multiplicities <= 3; all binary operation tables on operands with <= 2 elements each (4^4) and selected ones on all pairs of '
             '<= 3 elements; the library\'s own operations extended over all pairs of representative clans; checked and unchecked; sizes up to 300',
    'thorough': 'functions on <= 4 elements, binary tables on 2 x 3 elements',
}
ELEMS = [A(1), A(True), C('a', 'b'), S(C('a', 'b')), EMPTY]
TARGETS = [A('x'), S('y'), None, UNDEF]        # None: the (first) argument itself


def target(i, e):
    return e if TARGETS[i] is None else TARGETS[i]


def mk(t):
    return ud.Undef() if t == UNDEF else T.mk(t)


def ref_unary(t, f):
    pairs = [(e, 1) for e in t[1]] if t[0] == 's' else list(t[1])
    d = {}
    for e, n in pairs:
        r = f(e)
        if r != UNDEF:
            d[r] = d.get(r, 0) + n
    return d


def ref_binary(t, u, f):
    p1 = [(e, 1) for e in t[1]] if t[0] == 's' else list(t[1])
    p2 = [(e, 1) for e in u[1]] if u[0] == 's' else list(u[1])
    d = {}
    for (x, m), (y, n) in itertools.product(p1, p2):
        r = f(x, y)
        if r != UNDEF:
            d[r] = d.get(r, 0) + m * n
    return d


def check_unary(ctx, t, objs, pyf, f, how):
    d = ref_unary(t, f)
    for obj, kw in objs:
        if t[0] == 's':
            ctx.step()
            H.check_object(ctx, extension.unary_extend(obj, pyf, **kw), T.SI(d), lambda: 'unary extension over {} {}'.format(T.show(t), how()))
        ctx.step()
        H.check_object(ctx, extension.unary_multi_extend(obj, pyf, **kw), T.MI(d),
                       lambda: 'unary multi-extension over {} {}'.format(T.show(t), how()))
        H.check_object(ctx, obj, t, lambda: 'operand {}'.format(T.show(t)))
    ctx.outcome(len(d))


def check_binary(ctx, t, u, objs, pyf, f, how):
    d = ref_binary(t, u, f)
    for a, b, kw in objs:
        ctx.step()
        if t[0] == 's':
            H.check_object(ctx, extension.binary_extend(a, b, pyf, **kw), T.SI(d),
                           lambda: 'binary extension over {} and {} {}'.format(T.show(t), T.show(u), how()))
        else:
            H.check_object(ctx, extension.binary_multi_extend(a, b, pyf, **kw), T.MI(d),
                           lambda: 'binary multi-extension over {} and {} {}'.format(T.show(t), T.show(u), how()))
    ctx.outcome(len(d))


MODES = [{}, {'_checked': True}, {'_checked': False}]


def gen_unary(tier):
    k = 3 if tier == 'quick' else 4
    for n in range(k + 1):
        for c in itertools.combinations(ELEMS, n):
            yield (('s', frozenset(c)),)
            for ns in itertools.product((1, 2, 3), repeat=n) if n else [()]:
                yield (('m', frozenset(zip(c, ns))),)


def run_unary(case, ctx):
    t, = case
    es = sorted({e for e in t[1]} if t[0] == 's' else {e for e, _ in t[1]}, key=T.key)
    objs = [(T.mk(t), MODES[0]), (drive.warm_full(T.mk(t, 1)), MODES[1]), (drive.rebuilt(T.mk(t)), MODES[2])]
    for f in itertools.product(range(len(TARGETS)), repeat=len(es)):
        table = {e: target(i, e) for e, i in zip(es, f)}
        py = {T.mk(e): mk(r) for e, r in table.items()}
        check_unary(ctx, t, objs, lambda e: py[e], lambda e: table[e],
                    lambda: 'with {}'.format({T.show(k): T.show(v) for k, v in table.items()}))
        ctx.state((t, f))
    ctx.trace()


def gen_tables(tier):
    k2 = 2 if tier == 'quick' else 3
    ops1 = [EMPTY, S(1), S(1, True), S(C('a', 'b'), EMPTY)]
    ops2 = ops1 if k2 == 2 else ops1 + [S(1, True, C('a', 'b'))]
    for t, u in itertools.product(ops1, ops2):
        yield (t, u)
    ms = [EMPTYM, M({1: 2}), M({1: 1, True: 3}), M({C('a', 'b'): 2, EMPTY: 2})]
    for t, u in itertools.product(ms, ms):
        yield (t, u)


def run_tables(case, ctx):
    t, u = case
    el = lambda x: sorted(x[1] if x[0] == 's' else [e for e, _ in x[1]], key=T.key)
    cells = [(x, y) for x in el(t) for y in el(u)]
    objs = [(T.mk(t), T.mk(u), MODES[0]), (drive.warm_full(T.mk(t)), T.mk(u, 1), MODES[1]), (T.mk(t, 1), drive.warm_full(T.mk(u)), MODES[2])]
    if t == u:
        o = T.mk(t)
        objs.append((o, o, {}))
    for f in itertools.product(range(len(TARGETS)), repeat=len(cells)):
        table = {xy: target(i, xy[0]) for xy, i in zip(cells, f)}
        py = {(T.mk(x), T.mk(y)): mk(r) for (x, y), r in table.items()}
        check_binary(ctx, t, u, objs, lambda x, y: py[(x, y)], lambda x, y: table[(x, y)],
                     lambda: 'with {}'.format({T.show(k[0]) + ',' + T.show(k[1]): T.show(v) for k, v in table.items()}))
        ctx.state((t, u, f))
    ctx.trace()


def as_mset(t, k=1):
    return ('m', frozenset((e, 1 + (i * k) % 3) for i, e in enumerate(sorted(t[1], key=T.key))))


BIN = [('union', sets.union, ops.s_union), ('intersect', sets.intersect, ops.s_intersect), ('minus', sets.minus, ops.s_minus),
       ('substrict', sets.substrict, ops.s_substrict), ('superstrict', sets.superstrict, ops.s_superstrict),
       ('compose', relations.compose, ops.r_compose), ('functional_union', relations.functional_union, ops.r_functional_union),
       ('right_functional_union', relations.right_functional_union, ops.r_right_functional_union),
       ('couplet', mo.Couplet, lambda x, y: ('c', x, y)), ('left', lambda x, y: x, lambda x, y: x),
       ('right', lambda x, y: y, lambda x, y: y)]
UN = [('transpose', relations.transpose, ops.r_transpose), ('lefts', relations.get_lefts, ops.r_get_lefts),
      ('rights', relations.get_rights, ops.r_get_rights), ('set', mo.Set, lambda e: S(e)), ('multify', sets.multify, ops.s_multify),
      ('single', sets.single, ops.s_single), ('at', lambda r: relations.get_right(r, 'a'), lambda r: ops.r_get_right(r, A('a')))]


def gen_library(tier):
    s = U.sharp_rels()
    clans = [EMPTY] + list(U.subsets(s[:11] if tier == 'quick' else s, 1, 2)) + [S(*s[1:8]), S(*s)]
    for i, t in enumerate(clans):
        for u in clans[i % 5::5] if tier == 'quick' else clans:
            yield (t, u)
    med = U.medium_clans()
    for t, u in itertools.product(med, med):
        yield (t, u)


def run_library(case, ctx):
    t, u = case
    for tt, uu in ((t, u), (as_mset(t), as_mset(u, 2))):
        objs = [(T.mk(tt), T.mk(uu), MODES[0]), (drive.warm_full(T.mk(tt)), drive.warm_full(T.mk(uu, 1)), MODES[2])]
        for name, pyf, f in BIN:
            check_binary(ctx, tt, uu, objs, pyf, f, lambda: 'of ' + name)
        if t == u:
            o = T.mk(tt)
            for name, pyf, f in BIN:
                check_binary(ctx, tt, tt, [(o, o, {})], pyf, f, lambda: 'of {}, same object'.format(name))
        for name, pyf, f in UN:
            check_unary(ctx, tt, [(objs[0][0], {}), (objs[1][0], MODES[2])], pyf, f, lambda: 'of ' + name)
        ctx.state((tt, uu))
    ctx.trace()


def gen_scaled(tier):
    for n in U.SIZES + (U.SIZES_XL if tier != 'quick' else [1000]):
        yield (n,)


def run_scaled(case, ctx):
    n, = case
    for t in (U.int_set(n), U.int_mset(n), U.int_mset(n, 0, (10 ** 6, 1))):
        for k in (1, 3, 10, 10 ** 9):
            pyf = lambda e: mo.Atom(e.value % k) if e.value % 7 != 5 else ud.Undef()
            f = lambda e: A(e[2] % k) if e[2] % 7 != 5 else UNDEF
            check_unary(ctx, t, [(T.mk(t), {}), (T.mk(t, 1), MODES[2])], pyf, f, lambda: 'n={} mod {}'.format(n, k))
        small = U.int_set(3, 5) if t[0] == 's' else U.int_mset(3, 5)
        pyb = lambda x, y: mo.Atom((x.value * y.value) % 11) if (x.value + y.value) % 4 else ud.Undef()
        fb = lambda x, y: A((x[2] * y[2]) % 11) if (x[2] + y[2]) % 4 else UNDEF
        check_binary(ctx, t, small, [(T.mk(t), T.mk(small), {})], pyb, fb, lambda: 'n={}'.format(n))
        check_binary(ctx, small, t, [(T.mk(small), T.mk(t), {})], pyb, fb, lambda: 'n={}'.format(n))
        ctx.state((n, t[0]))
    ctx.trace()


FAMILIES = [
    Family('unary-functions', gen_unary, run_unary),
    Family('binary-tables', gen_tables, run_tables),
    Family('library-operations', gen_library, run_library),
    Family('scaled', gen_scaled, run_scaled),
]
