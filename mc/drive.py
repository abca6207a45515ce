"""Applying operations to real objects and judging the outcome against the reference."""
import algebraixlib.mathobjects as mo
import algebraixlib.undef as ud
from algebraixlib.algebras import (clans, couplets, multiclans, multisets, properties, relations,
                                   sets)

from . import terms as T
from .terms import UNDEF

_U = ud.Undef()

# Queries that fill the lazily computed property cache (transitions of the cache state machine).
QUERIES = [
    ('rel', lambda o: relations.is_member(o)),
    ('absrel', lambda o: relations.is_absolute_member(o)),
    ('clan', lambda o: clans.is_member(o)),
    ('absclan', lambda o: clans.is_absolute_member(o)),
    ('mclan', lambda o: multiclans.is_member(o)),
    ('absmclan', lambda o: multiclans.is_absolute_member(o)),
    ('absset', lambda o: sets.is_absolute_member(o)),
    ('absmset', lambda o: multisets.is_absolute_member(o)),
    ('abscpl', lambda o: couplets.is_absolute_member(o)),
    ('func', lambda o: properties.is_functional(o)),
    ('rfunc', lambda o: properties.is_right_functional(o)),
    ('refl', lambda o: properties.is_reflexive(o)),
    ('sym', lambda o: properties.is_symmetric(o)),
    ('trans', lambda o: properties.is_transitive(o)),
    ('reg', lambda o: properties.is_regular(o)),
    ('rreg', lambda o: properties.is_right_regular(o)),
]
QUERY = dict(QUERIES)


def warm_full(obj):
    """Ask every query of the object and of everything inside it."""
    for ch in T.children(obj):
        warm_full(ch)
    for _, q in QUERIES:
        q(obj)
    hash(obj)
    return obj


def warm_shallow(obj):
    for _, q in reversed(QUERIES):
        q(obj)
    return obj


def identity(obj):
    return obj


def rebuilt(obj):
    """The same value, obtained as the result of operations (so it carries derived flags)."""
    if isinstance(obj, mo.Set) and len(obj.data) > 1:
        es = sorted(obj.data)
        k = len(es) // 2
        a, b = mo.Set(es[:k]), mo.Set(es[k:])
        for x in (a, b):
            warm_shallow(x)
        return sets.union(b, a)
    if isinstance(obj, mo.Multiset) and len(obj.data) > 1:
        es = sorted(obj.data)
        k = len(es) // 2
        a = mo.Multiset({e: obj.data[e] for e in es[:k]})
        b = mo.Multiset({e: obj.data[e] for e in es[k:]})
        for x in (a, b):
            warm_shallow(x)
        return multisets.add(b, a)
    return warm_shallow(obj)


PREPS = {'fresh': identity, 'warm': warm_full, 'shallow': warm_shallow, 'rebuilt': rebuilt}
for _n, _q in QUERIES:
    PREPS['q:' + _n] = (lambda q: lambda o: (q(o), o)[1])(_q)


def read(res):
    """The outcome of a call as reference data."""
    if res is _U:
        return UNDEF
    if res is True or res is False:
        return res
    if isinstance(res, mo.MathObject):
        return T.term(res)
    return ('other', repr(res))


def shown(x):
    if x is UNDEF or x is None or isinstance(x, bool):
        return str(x)
    if isinstance(x, tuple) and x and x[0] == 'other':
        return x[1]
    return T.show(x)


def twin_dicts(pairs, values):
    """Dictionaries from the pairs to which every choice of keys is added a second time, as the atom (or the value) of the
    same key: different keys of the dictionary, the same value in the algebra.  Yields (dictionary, all its pairs)."""
    for mask in range(1, 2 ** len(pairs)):
        for v in values:
            for first in (True, False):
                d = {(k if first else mo.Atom(k)): r for k, r in pairs}
                d.update({(mo.Atom(k) if first else k): v for i, (k, r) in enumerate(pairs) if mask >> i & 1})
                yield d, list(pairs) + [(k, v) for i, (k, r) in enumerate(pairs) if mask >> i & 1]


def call(op, args, **kw):
    if op.name == 'project':
        return op.fn(*args)
    return op.fn(*args, **kw)


def judge(ctx, what, res, want, flags=1):
    """Compare one outcome with the reference; returns the outcome."""
    ctx.step()
    if want is None:
        return None
    try:
        got = read(res)
    except T.Malformed as e:
        ctx.fail('{}: the result is malformed: {}'.format(text(what), e))
    if got is not want and (type(got) is not type(want) or got != want):
        ctx.fail('{}: got {}, expected {}'.format(text(what), shown(got), shown(want)))
    if flags and isinstance(res, mo.MathObject):
        bad = T.deep_unsound(res, got) if flags == 2 else T.unsound_flags(res, got)
        if bad:
            ctx.fail('{}: {}'.format(text(what), bad[0]))
    return got


def text(what):
    """``what`` may be a function that makes the text only when it is needed."""
    return what() if callable(what) else what
