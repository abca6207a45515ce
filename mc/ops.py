"""The operations of the algebras with their reference definitions over terms.

The definitions are written from docs/algebraReference.rst and the docstrings, with Python's
frozenset and int as the only machinery.  Every Op is applied to terms of the listed kinds.
"""
import importlib

from .terms import *      # noqa


class Op:
    def __init__(self, alg, name, kinds, ref, checked=True, partial=False, laws=()):
        self.alg, self.name, self.kinds, self.ref = alg, name, kinds, ref
        self.checked = checked      # has a _checked argument
        self.partial = partial      # may be undefined on arguments of the right kind
        self.id = alg + '.' + name

    @property
    def fn(self):
        return getattr(module(self.alg), self.name)

    def __repr__(self):
        return self.id


def module(alg):
    return importlib.import_module('algebraixlib.algebras.' + alg)


# -- couplets ----------------------------------------------------------------------------------------
def c_transpose(c):
    return ('c', c[2], c[1])


def c_compose(c1, c2):
    return ('c', c2[1], c1[2]) if c1[1] == c2[2] else UNDEF


# -- sets --------------------------------------------------------------------------------------------
def s_union(a, b):
    return ('s', a[1] | b[1])


def s_intersect(a, b):
    return ('s', a[1] & b[1])


def s_minus(a, b):
    return ('s', a[1] - b[1])


def s_substrict(a, b):
    return a if a[1] <= b[1] else UNDEF


def s_superstrict(a, b):
    return a if a[1] >= b[1] else UNDEF


def s_subset(a, b):
    return a[1] <= b[1]


def s_superset(a, b):
    return a[1] >= b[1]


def s_multify(a):
    return ('m', frozenset((e, 1) for e in a[1]))


def s_big_union(a):
    if any(e[0] != 's' for e in a[1]):
        return UNDEF
    out = frozenset()
    for e in a[1]:
        out |= e[1]
    return ('s', out)


def s_big_intersect(a):
    if any(e[0] != 's' for e in a[1]):
        return UNDEF
    es = list(a[1])
    if not es:
        return EMPTY
    out = es[0][1]
    for e in es[1:]:
        out &= e[1]
    return ('s', out)


def s_single(a):
    return next(iter(a[1])) if len(a[1]) == 1 else UNDEF


def s_power_set(a):
    es = elems(a)
    return ('s', frozenset(('s', frozenset(e for i, e in enumerate(es) if mask >> i & 1))
                           for mask in range(1 << len(es))))


def s_power_up(a):
    return ('s', frozenset(('s', frozenset([e])) for e in a[1]))


# -- relations ---------------------------------------------------------------------------------------
def r_transpose(r):
    return ('s', frozenset(('c', e[2], e[1]) for e in r[1]))


def r_compose(r1, r2):
    by_left = {}
    for e in r1[1]:
        by_left.setdefault(e[1], []).append(e[2])
    return ('s', frozenset(('c', f[1], x) for f in r2[1] for x in by_left.get(f[2], ())))


def r_functional_union(a, b):
    u = s_union(a, b)
    return u if r_functional(u) else UNDEF


def r_right_functional_union(a, b):
    u = s_union(a, b)
    return u if r_right_functional(u) else UNDEF


def r_get_lefts(r):
    return ('s', lefts(r))


def r_get_rights(r):
    return ('s', rights(r))


def r_rights_for_left(r, l):
    return ('s', frozenset(e[2] for e in r[1] if e[1] == l))


def r_get_right(r, l):
    rs = r_rights_for_left(r, l)[1]
    return next(iter(rs)) if len(rs) == 1 else UNDEF


def r_get_left(r, x):
    ls = [e[1] for e in r[1] if e[2] == x]
    return ls[0] if len(ls) == 1 else UNDEF


def r_fill_lefts(r, ren):
    return ('s', ren[1] | frozenset(('c', l, l) for l in lefts(r) - rights(ren)))


def r_rename(r, ren):
    return r_compose(r, r_fill_lefts(r, ren))


def r_swap(r, sw):
    return r_rename(r, s_union(sw, r_transpose(sw)))


def r_functional_add(r, c):
    if not r_functional(r) or c[1] in lefts(r):
        return UNDEF
    return ('s', r[1] | {c})


def r_defined_at(r, l):
    return r if l in lefts(r) else UNDEF


# -- clans -------------------------------------------------------------------------------------------
def ext1(f, a):
    return ('s', frozenset(x for x in (f(e) for e in a[1]) if x is not UNDEF))


def ext2(f, a, b):
    return ('s', frozenset(x for x in (f(e, g) for e in a[1] for g in b[1]) if x is not UNDEF))


def mext1(f, a):
    d = {}
    for e, n in (a[1] if a[0] == 'm' else [(e, 1) for e in a[1]]):
        x = f(e)
        if x is not UNDEF:
            d[x] = d.get(x, 0) + n
    return MI(d)


def mext2(f, a, b):
    d = {}
    for e, n in a[1]:
        for g, k in b[1]:
            x = f(e, g)
            if x is not UNDEF:
                d[x] = d.get(x, 0) + n * k
    return MI(d)


def cl_lhs_cfu(a, b):
    cfu = ext2(r_functional_union, a, b)
    rest = frozenset(e for e in a[1] if not ext2(r_functional_union, ('s', frozenset([e])), b)[1])
    return ('s', cfu[1] | rest)


def cl_get_lefts(c):
    return ('s', all_side(c, lefts))


def cl_get_rights(c):
    return ('s', all_side(c, rights))


def r_diag(*ls):
    return ('s', frozenset(('c', l, l) for l in ls))


def cl_project(c, *ls):
    return ext2(r_compose, c, ('s', frozenset([r_diag(*ls)])))


def cl_defined_at(c, l):
    out = ext1(lambda r: r_defined_at(r, l), c)
    return out if out[1] else UNDEF


# -- multisets ---------------------------------------------------------------------------------------
def md(t):
    return dict(t[1])


def m_union(a, b):
    x, y = md(a), md(b)
    return MI({k: max(x.get(k, 0), y.get(k, 0)) for k in set(x) | set(y)})


def m_intersect(a, b):
    x, y = md(a), md(b)
    return MI({k: min(x[k], y.get(k, 0)) for k in x})


def m_minus(a, b):
    x, y = md(a), md(b)
    return MI({k: max(x[k] - y.get(k, 0), 0) for k in x})


def m_add(a, b):
    x, y = md(a), md(b)
    return MI({k: x.get(k, 0) + y.get(k, 0) for k in set(x) | set(y)})


def m_subset(a, b):
    y = md(b)
    return all(n <= y.get(k, 0) for k, n in a[1])


def m_superset(a, b):
    return m_subset(b, a)


def m_substrict(a, b):
    return a if m_subset(a, b) else UNDEF


def m_superstrict(a, b):
    return a if m_superset(a, b) else UNDEF


def m_demultify(a):
    return ('s', frozenset(k for k, _ in a[1]))


def m_big_union(a):
    if any(e[0] != 'm' for e in a[1]):
        return UNDEF
    es = list(a[1])
    if not es:
        return None      # the union of no multisets is not specified
    out = es[0]
    for e in es[1:]:
        out = m_union(out, e)
    return out


def m_big_intersect(a):
    if any(e[0] != 'm' for e in a[1]):
        return UNDEF
    es = list(a[1])
    if not es:
        return None
    out = es[0]
    for e in es[1:]:
        out = m_intersect(out, e)
    return out


def m_single(a):
    if len(a[1]) == 1:
        (k, n), = a[1]
        if n == 1:
            return k
    return UNDEF


# -- multiclans --------------------------------------------------------------------------------------
def mc_substrict(a, b):
    x = md(a)
    return MI({r: n for r, n in x.items() if any(s_subset(r, g) for g, _ in b[1])})


def mc_superstrict(a, b):
    x = md(a)
    return MI({r: n for r, n in x.items() if any(s_superset(r, g) for g, _ in b[1])})


def mc_get_lefts(a):
    return None if not a[1] else ('s', all_side(a, lefts))


def mc_get_rights(a):
    return None if not a[1] else ('s', all_side(a, rights))


def mc_rights_for_left(a, l):
    d = {}
    for r, n in a[1]:
        for e in r[1]:
            if e[1] == l:
                d[e[2]] = d.get(e[2], 0) + n
    return MI(d)


def mc_project(c, *ls):
    return mext2(r_compose, c, ('m', frozenset([(r_diag(*ls), 1)])))


def mc_defined_at(c, l):
    out = mext1(lambda r: r_defined_at(r, l), c)
    return out if out[1] else UNDEF


# -- the table ---------------------------------------------------------------------------------------
def _sub(name):
    return lambda t: facts(t)[name]


OPS = [
    Op('couplets', 'transpose', ('couplet',), c_transpose),
    Op('couplets', 'compose', ('couplet', 'couplet'), c_compose, partial=True),
    Op('couplets', 'is_reflexive', ('couplet',), _sub('reflexive')),

    Op('sets', 'union', ('set', 'set'), s_union),
    Op('sets', 'intersect', ('set', 'set'), s_intersect),
    Op('sets', 'minus', ('set', 'set'), s_minus),
    Op('sets', 'substrict', ('set', 'set'), s_substrict, partial=True),
    Op('sets', 'superstrict', ('set', 'set'), s_superstrict, partial=True),
    Op('sets', 'is_subset_of', ('set', 'set'), s_subset),
    Op('sets', 'is_superset_of', ('set', 'set'), s_superset),
    Op('sets', 'multify', ('set',), s_multify),
    Op('sets', 'big_union', ('set',), s_big_union, partial=True),
    Op('sets', 'big_intersect', ('set',), s_big_intersect, partial=True),
    Op('sets', 'single', ('set',), s_single, checked=False, partial=True),
    Op('sets', 'power_set', ('set',), s_power_set, checked=False),
    Op('sets', 'power_up', ('set',), s_power_up, checked=False),

    Op('relations', 'transpose', ('rel',), r_transpose),
    Op('relations', 'compose', ('rel', 'rel'), r_compose),
    Op('relations', 'functional_union', ('rel', 'rel'), r_functional_union, partial=True),
    Op('relations', 'right_functional_union', ('rel', 'rel'), r_right_functional_union, partial=True),
    Op('relations', 'get_lefts', ('rel',), r_get_lefts),
    Op('relations', 'get_rights', ('rel',), r_get_rights),
    Op('relations', 'get_rights_for_left', ('rel', 'left'), r_rights_for_left),
    Op('relations', 'get_right', ('rel', 'left'), r_get_right, partial=True),
    Op('relations', 'get_left', ('rel', 'left'), r_get_left, partial=True),
    Op('relations', 'is_functional', ('rel',), r_functional),
    Op('relations', 'is_right_functional', ('rel',), r_right_functional),
    Op('relations', 'is_reflexive', ('rel',), r_reflexive),
    Op('relations', 'is_symmetric', ('rel',), r_symmetric),
    Op('relations', 'is_transitive', ('rel',), r_transitive),
    Op('relations', 'fill_lefts', ('rel', 'rel'), r_fill_lefts),
    Op('relations', 'rename', ('rel', 'rel'), r_rename),
    Op('relations', 'swap', ('rel', 'rel'), r_swap),
    Op('relations', 'functional_add', ('rel', 'couplet'), r_functional_add, checked=False, partial=True),
    Op('relations', 'defined_at', ('rel', 'left'), r_defined_at, partial=True),

    Op('clans', 'transpose', ('clan',), lambda a: ext1(r_transpose, a)),
    Op('clans', 'compose', ('clan', 'clan'), lambda a, b: ext2(r_compose, a, b)),
    Op('clans', 'cross_union', ('clan', 'clan'), lambda a, b: ext2(s_union, a, b)),
    Op('clans', 'cross_functional_union', ('clan', 'clan'), lambda a, b: ext2(r_functional_union, a, b)),
    Op('clans', 'lhs_cross_functional_union', ('clan', 'clan'), cl_lhs_cfu),
    Op('clans', 'cross_right_functional_union', ('clan', 'clan'),
       lambda a, b: ext2(r_right_functional_union, a, b)),
    Op('clans', 'cross_intersect', ('clan', 'clan'), lambda a, b: ext2(s_intersect, a, b)),
    Op('clans', 'substrict', ('clan', 'clan'), lambda a, b: ext2(s_substrict, a, b)),
    Op('clans', 'superstrict', ('clan', 'clan'), lambda a, b: ext2(s_superstrict, a, b)),
    Op('clans', 'get_lefts', ('clan',), cl_get_lefts),
    Op('clans', 'get_rights', ('clan',), cl_get_rights),
    Op('clans', 'is_functional', ('clan',), _sub('functional')),
    Op('clans', 'is_right_functional', ('clan',), _sub('right_functional')),
    Op('clans', 'is_regular', ('clan',), _sub('regular')),
    Op('clans', 'is_right_regular', ('clan',), _sub('right_regular')),
    Op('clans', 'is_reflexive', ('clan',), _sub('reflexive')),
    Op('clans', 'is_symmetric', ('clan',), _sub('symmetric')),
    Op('clans', 'is_transitive', ('clan',), _sub('transitive')),
    Op('clans', 'project', ('clan', 'left', 'left'), cl_project, checked=False),
    Op('clans', 'defined_at', ('clan', 'left'), cl_defined_at, partial=True),

    Op('multisets', 'union', ('mset', 'mset'), m_union),
    Op('multisets', 'intersect', ('mset', 'mset'), m_intersect),
    Op('multisets', 'minus', ('mset', 'mset'), m_minus),
    Op('multisets', 'add', ('mset', 'mset'), m_add),
    Op('multisets', 'substrict', ('mset', 'mset'), m_substrict, partial=True),
    Op('multisets', 'superstrict', ('mset', 'mset'), m_superstrict, partial=True),
    Op('multisets', 'is_subset_of', ('mset', 'mset'), m_subset),
    Op('multisets', 'is_superset_of', ('mset', 'mset'), m_superset),
    Op('multisets', 'demultify', ('mset',), m_demultify),
    Op('multisets', 'big_union', ('set',), m_big_union, partial=True),
    Op('multisets', 'big_intersect', ('set',), m_big_intersect, partial=True),
    Op('multisets', 'single', ('mset',), m_single, checked=False, partial=True),

    Op('multiclans', 'transpose', ('mclan',), lambda a: mext1(r_transpose, a)),
    Op('multiclans', 'compose', ('mclan', 'mclan'), lambda a, b: mext2(r_compose, a, b)),
    Op('multiclans', 'cross_union', ('mclan', 'mclan'), lambda a, b: mext2(s_union, a, b)),
    Op('multiclans', 'cross_functional_union', ('mclan', 'mclan'),
       lambda a, b: mext2(r_functional_union, a, b)),
    Op('multiclans', 'cross_right_functional_union', ('mclan', 'mclan'),
       lambda a, b: mext2(r_right_functional_union, a, b)),
    Op('multiclans', 'cross_intersect', ('mclan', 'mclan'), lambda a, b: mext2(s_intersect, a, b)),
    Op('multiclans', 'substrict', ('mclan', 'mclan'), mc_substrict),
    Op('multiclans', 'superstrict', ('mclan', 'mclan'), mc_superstrict),
    Op('multiclans', 'get_lefts', ('mclan',), mc_get_lefts),
    Op('multiclans', 'get_rights', ('mclan',), mc_get_rights),
    Op('multiclans', 'get_rights_for_left', ('mclan', 'left'), mc_rights_for_left),
    Op('multiclans', 'is_functional', ('mclan',), _sub('functional')),
    Op('multiclans', 'is_right_functional', ('mclan',), _sub('right_functional')),
    Op('multiclans', 'is_regular', ('mclan',), _sub('regular')),
    Op('multiclans', 'is_right_regular', ('mclan',), _sub('right_regular')),
    Op('multiclans', 'is_reflexive', ('mclan',), _sub('reflexive')),
    Op('multiclans', 'is_symmetric', ('mclan',), _sub('symmetric')),
    Op('multiclans', 'is_transitive', ('mclan',), _sub('transitive')),
    Op('multiclans', 'project', ('mclan', 'left', 'left'), mc_project, checked=False),
    Op('multiclans', 'defined_at', ('mclan', 'left'), mc_defined_at, partial=True),
]

BY_ID = {op.id: op for op in OPS}


def ops_of(*algs):
    return [op for op in OPS if op.alg in algs]


def fits(kind, t):
    if kind == 'couplet':
        return t[0] == 'c'
    if kind == 'set':
        return t[0] == 's'
    if kind == 'rel':
        return is_rel(t)
    if kind == 'clan':
        return is_clan(t)
    if kind == 'mset':
        return t[0] == 'm'
    if kind == 'mclan':
        return is_mclan(t)
    return True     # left / any
