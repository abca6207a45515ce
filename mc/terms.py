"""Terms: the reference model's values, and the bridge between them and the real objects.

A term is plain immutable Python data:

    ('a', type_name, value)          atom      ('c', left, right)                couplet
    ('s', frozenset(terms))          set       ('m', frozenset({(term, n)}))     multiset

Two terms are equal exactly if they denote the same mathematical value (atoms are distinguished by
the Python type of their value, as documented for Atom).  Nothing in this module calls an operation
of the library; only constructors and plain accessors are used.
"""
import ast
import datetime
import decimal
import fractions
import itertools

import algebraixlib.mathobjects as mo

UNDEF = ('undef',)


# -- construction of terms -------------------------------------------------------------------------
def A(v):
    return ('a', type(v).__name__, v)


def _t(x):
    return x if isinstance(x, tuple) and x and x[0] in ('a', 'c', 's', 'm', 'undef') else A(x)


def C(l, *r):
    l = _t(l)
    return ('c', l, _t(r[0]) if r else l)


def S(*xs):
    return ('s', frozenset(_t(x) for x in xs))


def SI(xs):
    return ('s', frozenset(xs))


def M(d):
    return ('m', frozenset((_t(k), n) for k, n in d.items() if n > 0))


def MI(d):
    return ('m', frozenset((k, n) for k, n in d.items() if n > 0))


def R(**kw):
    """Relation from keyword pairs (functional)."""
    return ('s', frozenset(C(k, v) for k, v in kw.items()))


def RP(*pairs):
    return ('s', frozenset(C(l, r) for l, r in pairs))


EMPTY = ('s', frozenset())
EMPTYM = ('m', frozenset())

_EVAL_ENV = {'frozenset': frozenset, 'Decimal': decimal.Decimal, 'datetime': datetime,
             'Fraction': fractions.Fraction, 'inf': float('inf')}


def parse_case(text):
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return eval(text, dict(_EVAL_ENV))  # our own repr, written by this harness


# -- canonical ordering ----------------------------------------------------------------------------
_key_cache = {}


def key(t):
    """A canonical string of the term: total order over terms, used to fix enumeration orders."""
    k = _key_cache.get(t)
    if k is None:
        tag = t[0]
        if tag == 'a':
            k = 'a:' + t[1] + ':' + repr(t[2])
        elif tag == 'c':
            k = 'c(' + key(t[1]) + '>' + key(t[2]) + ')'
        elif tag == 's':
            k = 's{' + ','.join(sorted(key(e) for e in t[1])) + '}'
        elif tag == 'm':
            k = 'm{' + ','.join(sorted(key(e) + '*' + str(n) for e, n in t[1])) + '}'
        else:
            k = 'undef'
        if len(_key_cache) < 2000000:
            _key_cache[t] = k
    return k


_sorted_cache = {}


def elems(t):
    """The elements of a set term (or the (element, count) pairs of a multiset term), sorted."""
    r = _sorted_cache.get(t)
    if r is None:
        if t[0] == 's':
            r = tuple(sorted(t[1], key=key))
        else:
            r = tuple(sorted(t[1], key=lambda p: key(p[0])))
        if len(_sorted_cache) < 1000000:
            _sorted_cache[t] = r
    return r


def show(t):
    tag = t[0]
    if tag == 'a':
        return repr(t[2]) if t[1] == type(t[2]).__name__ else '{}:{!r}'.format(t[1], t[2])
    if tag == 'c':
        return '({}->{})'.format(show(t[1]), show(t[2]))
    if tag == 's':
        return '{' + ', '.join(show(e) for e in elems(t)) + '}'
    if tag == 'm':
        return '[' + ', '.join('{}:{}'.format(show(e), n) for e, n in elems(t)) + ']'
    return 'undef'


# -- real objects ----------------------------------------------------------------------------------
def _order(seq, order):
    """order: 0 sorted, 1 reversed, k>=2: rotated by k-1 and interleaved (deterministic)."""
    if order == 0 or len(seq) < 2:
        return seq
    if order == 1:
        return seq[::-1]
    k = (order - 1) % len(seq)
    seq = seq[k:] + seq[:k]
    return seq[::2] + seq[1::2][::-1]


def mk(t, order=0):
    """Build a fresh real object for term ``t``; elements are inserted in the given order."""
    tag = t[0]
    if tag == 'a':
        return mo.Atom(t[2])
    if tag == 'c':
        return mo.Couplet(mk(t[1], order), mk(t[2], order))
    if tag == 's':
        return mo.Set([mk(e, order) for e in _order(elems(t), order)])
    if tag == 'm':
        return mo.Multiset({mk(e, order): n for e, n in _order(elems(t), order)})
    raise AssertionError(t)


def mk_perm(t, perm):
    """Like mk, but the top-level elements are inserted in the order given by ``perm``."""
    es = elems(t)
    if t[0] == 's':
        return mo.Set([mk(es[i]) for i in perm])
    return mo.Multiset({mk(es[i][0]): es[i][1] for i in perm})


class Malformed(Exception):
    pass


def term(obj):
    """Read a real object back as a term, through its public accessors; Malformed if it is not a
    well-formed mathematical object."""
    if isinstance(obj, mo.Atom):
        v = obj.value
        if isinstance(v, mo.MathObject):
            raise Malformed('atom holds a math object: %r' % (v,))
        return ('a', type(v).__name__, v)
    if isinstance(obj, mo.Couplet):
        return ('c', term(obj.left), term(obj.right))
    if isinstance(obj, mo.Set):
        items = [term(e) for e in obj.data]
        fs = frozenset(items)
        if len(fs) != len(items):
            raise Malformed('set holds duplicates: %r' % (obj,))
        return ('s', fs)
    if isinstance(obj, mo.Multiset):
        d = {}
        for e, n in obj.data.items():
            te = term(e)
            if te in d:
                raise Malformed('multiset holds an element twice: %r' % (obj,))
            if type(n) is not int or n <= 0:
                raise Malformed('multiset holds the multiplicity %r' % (n,))
            d[te] = n
        return ('m', frozenset(d.items()))
    raise Malformed('not a math object: %r' % (obj,))


# -- definitions of the algebra reference, on terms --------------------------------------------------
def is_set(t):
    return t[0] == 's'


def is_mset(t):
    return t[0] == 'm'


def is_rel(t):
    return t[0] == 's' and all(e[0] == 'c' for e in t[1])


def is_clan(t):
    return t[0] == 's' and all(is_rel(e) for e in t[1])


def is_mclan(t):
    return t[0] == 'm' and all(is_rel(e) for e, _ in t[1])


def is_empty(t):
    return t[0] in 'sm' and not t[1]


def abs_couplet(t):
    return t[0] == 'c' and t[1][0] == 'a' and t[2][0] == 'a'


def abs_rel(t):
    return is_rel(t) and all(abs_couplet(e) for e in t[1])


def abs_clan(t):
    return t[0] == 's' and all(abs_rel(e) for e in t[1])


def abs_mclan(t):
    return t[0] == 'm' and all(abs_rel(e) for e, _ in t[1])


def lefts(rel):
    return frozenset(e[1] for e in rel[1])


def rights(rel):
    return frozenset(e[2] for e in rel[1])


def r_functional(rel):
    return len(lefts(rel)) == len(rel[1])


def r_right_functional(rel):
    return len(rights(rel)) == len(rel[1])


def r_reflexive(rel):
    return all(('c', x, x) in rel[1] for x in lefts(rel) | rights(rel))


def r_symmetric(rel):
    return all(('c', e[2], e[1]) in rel[1] for e in rel[1])


def r_transitive(rel):
    return all(('c', e[1], f[2]) in rel[1] for e in rel[1] for f in rel[1] if e[2] == f[1])


_BASE = {'functional': r_functional, 'right_functional': r_right_functional,
         'reflexive': r_reflexive, 'symmetric': r_symmetric, 'transitive': r_transitive}


def rels_of(t):
    """The relations of a clan or multiclan term."""
    return list(t[1]) if t[0] == 's' else [e for e, _ in t[1]]


def c_regular(t):
    rs = rels_of(t)
    return all(r_functional(r) for r in rs) and len({lefts(r) for r in rs}) <= 1


def c_right_regular(t):
    rs = rels_of(t)
    return all(r_right_functional(r) for r in rs) and len({rights(r) for r in rs}) <= 1


def power_level(t):
    """0: clan; k: an element of the k-th power set of the clans; None: neither."""
    if t[0] != 's':
        return None
    if is_clan(t):
        return 0
    levels = {power_level(e) for e in t[1]}
    if len(levels) != 1 or None in levels:
        return None
    return levels.pop() + 1


def ambiguous(t):
    """Nested sets whose relation/clan status the reference leaves open: an empty set (or multiset)
    somewhere below the level of a clan's relations makes several readings possible."""
    if t[0] not in 'sm' or is_rel(t) or is_clan(t) or is_mclan(t):
        return False
    def has_empty(x):
        if x[0] == 's':
            return not x[1] or any(has_empty(e) for e in x[1])
        if x[0] == 'm':
            return not x[1] or any(has_empty(e) for e, _ in x[1])
        return False
    return has_empty(t)


_facts_cache = {}


def facts(t):
    """dict property -> True / False / None (None: the property does not apply)."""
    f = _facts_cache.get(t)
    if f is None:
        f = _facts(t)
        if len(_facts_cache) < 500000:
            _facts_cache[t] = f
    return f


def _facts(t):
    f = {'relation': is_rel(t), 'clan': is_clan(t), 'multiclan': is_mclan(t)}
    tag = t[0]
    if tag == 'a':
        f['absolute'] = True
    elif tag == 'c':
        f['absolute'] = abs_couplet(t)
    elif f['relation'] and not is_empty(t):
        f['absolute'] = abs_rel(t)
    elif f['clan']:
        f['absolute'] = abs_clan(t)
    elif f['multiclan']:
        f['absolute'] = abs_mclan(t)
    elif tag == 's':
        f['absolute'] = all(e[0] == 'a' for e in t[1])
    else:
        f['absolute'] = all(e[0] == 'a' for e, _ in t[1])
    for name, base in _BASE.items():
        if tag == 'c':
            f[name] = (t[1] == t[2]) if name == 'reflexive' else None
        elif f['relation']:
            f[name] = base(t)
        elif f['clan'] or f['multiclan']:
            f[name] = all(base(r) for r in rels_of(t))
        elif tag == 's' and power_level(t) is not None:
            sub = [facts(e)[name] for e in t[1]]
            f[name] = all(sub)
        else:
            f[name] = None
    for name, base, side in (('regular', c_regular, lefts), ('right_regular', c_right_regular, rights)):
        if is_empty(t):
            f[name] = True
        elif f['relation']:
            f[name] = None
        elif f['clan'] or f['multiclan']:
            f[name] = base(t)
        elif tag == 's' and power_level(t) is not None:
            f[name] = (all(facts(e)[name] for e in t[1])
                       and len({all_side(e, side) for e in t[1]}) <= 1)
        else:
            f[name] = None
    return f


def all_side(t, side):
    """Union of the lefts (rights) of all relations anywhere in a relation / clan / set of clans."""
    if is_rel(t):
        return side(t)
    out = frozenset()
    for e in t[1]:
        out |= all_side(e if t[0] == 's' else e[0], side)
    return out


FLAGS = ('relation', 'clan', 'multiclan', 'absolute', 'functional', 'right_functional', 'reflexive',
         'symmetric', 'transitive', 'regular', 'right_regular')


def flag_vector(obj):
    """The public cached property flags of a real object, as a tuple (observable state)."""
    return tuple(getattr(obj, 'cached_' + n) for n in FLAGS)


def unsound_flags(obj, t):
    """Messages for every cached flag of ``obj`` that contradicts the value ``t``."""
    from algebraixlib.cache_status import CacheStatus as CS
    f = facts(t)
    out = []
    for name in FLAGS:
        v = getattr(obj, 'cached_' + name)
        want = f[name]
        if v == CS.UNKNOWN:
            continue
        if v == CS.IS:
            ok = want is True
        elif v == CS.IS_NOT:
            ok = want is False
        elif v == CS.N_A:
            ok = want is None
        else:
            ok = False
        if not ok and (v == CS.N_A or want is None and name not in FLAGS[:4]) and ambiguous(t):
            ok = True
        if not ok:
            out.append('cached {} of {} is {} but the value says {}'.format(
                name, show(t), {CS.IS: 'IS', CS.IS_NOT: 'IS_NOT', CS.N_A: 'N_A'}.get(v, v), want))
    for name, want in (('is_atom', 'a'), ('is_couplet', 'c'), ('is_set', 's'), ('is_multiset', 'm')):
        if getattr(obj, name) is not (t[0] == want):
            out.append('{} of {} is {}'.format(name, show(t), getattr(obj, name)))
    return out


def children(obj):
    if isinstance(obj, mo.Couplet):
        return (obj.left, obj.right)
    if isinstance(obj, (mo.Set, mo.Multiset)):
        return tuple(obj.data)
    return ()


def deep_unsound(obj, t=None):
    """unsound_flags for the object and everything inside it."""
    t = term(obj) if t is None else t
    out = unsound_flags(obj, t)
    for ch in children(obj):
        if not isinstance(ch, mo.Atom):
            out.extend(deep_unsound(ch))
    return out
