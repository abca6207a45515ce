"""Families that apply table operations to every combination of arguments from bounded universes.

A case is (signature index, arguments): every operation of the family's table with that signature is
applied to the arguments, first to fresh objects (built anew for every operation), then to prepared
objects (queried, or obtained as results of other operations) that are shared by all operations of
the case, so that later operations of the case run on operands with a history.
"""
import itertools

from . import drive, ops, terms as T
from .core import Family


def build(t, prep='fresh', order=0):
    return drive.PREPS[prep](T.mk(t, order))


def apply(ctx, op, args, objs, want, kw, how, deep=False):
    def what():
        return '{}({}) {}{}'.format(op.id, ', '.join(T.show(t) for t in args), how,
                                    '' if not kw else ' ' + repr(kw))
    res = drive.call(op, objs, **kw)
    got = drive.judge(ctx, what, res, want, flags=2 if deep else 1)
    ctx.outcome(op.id + ('u' if got is T.UNDEF else 't' if got is True else 'f' if got is False else 'v'))
    return got


PAIR_PREPS = [('warm', 'warm'), ('fresh', 'warm'), ('shallow', 'fresh'), ('rebuilt', 'shallow')]
UNARY_PREPS = [('warm',), ('shallow',), ('rebuilt',)] + [('q:' + n,) for n, _ in drive.QUERIES]


def make_run(table, preps=None, orders=(0, 1), modes=(None,), alias=True):
    by_sig = {}
    for op in table:
        by_sig.setdefault(op.kinds, []).append(op)
    sigs = sorted(by_sig)

    def run(case, ctx):
        sig, args = sigs[case[0]], case[1:]
        wants = [(op, op.ref(*args)) for op in by_sig[sig]]
        # fresh objects for every operation
        for op, want in wants:
            for i, order in enumerate(orders):
                for mode in (modes if op.checked else (None,)):
                    kw = {} if mode is None else {'_checked': mode}
                    objs = [T.mk(t, order + (j if order else 0)) for j, t in enumerate(args)]
                    apply(ctx, op, args, objs, want, kw, 'fresh order={}'.format(order))
        # prepared objects, shared by the operations
        for i, prep in enumerate(UNARY_PREPS if preps is None and len(sig) == 1 else
                                 PAIR_PREPS if preps is None else preps):
            objs = [build(t, prep[j % len(prep)], orders[(i + j) % len(orders)]) for j, t in enumerate(args)]
            for op, want in wants:
                kw = {} if modes[i % len(modes)] is None or not op.checked else {'_checked': modes[i % len(modes)]}
                apply(ctx, op, args, objs, want, kw, 'prep=' + '/'.join(prep))
            for o, t in zip(objs, args):
                ctx.state((t, T.flag_vector(o)))
        # the same object as both operands
        if alias and len(args) == 2 and args[0] == args[1]:
            for prep in ('fresh', 'warm'):
                o = build(args[0], prep)
                for op, want in wants:
                    apply(ctx, op, args, [o, o], want, {}, 'same object, ' + prep)
        for op, want in wants:
            ctx.state((op.id, args, want if want is None or isinstance(want, bool) else T.key(want)))
        ctx.trace()
        if ctx.cases % 3000 == 1:
            ctx.sample((case[0],) + tuple(T.show(a) for a in args))
    return run, sigs


def product_family(name, table, universes, preps=None, orders=(0, 1), modes=(None,), block=4, doc=''):
    """All combinations of arguments; universes: {kind: (lambda tier: list of terms)}."""
    run, sigs = make_run(table, preps, orders, modes)

    def gen(tier):
        u = {k: f(tier) for k, f in universes.items()}
        for i, sig in enumerate(sigs):
            for args in itertools.product(*[u[k] for k in sig]):
                yield (i,) + args
    return Family(name, gen, run, block=block, doc=doc)


def pairs_family(name, table, pairs, preps=None, orders=(0,), modes=(None,), block=1, doc=''):
    """pairs(tier) yields argument tuples; every signature of the table that they fit gets them."""
    run, sigs = make_run(table, preps, orders, modes)

    def gen(tier):
        plist = list(pairs(tier))
        for i, sig in enumerate(sigs):
            for args in plist:
                if len(args) == len(sig) and all(ops.fits(k, t) for k, t in zip(sig, args)):
                    yield (i,) + tuple(args)
    return Family(name, gen, run, block=block, doc=doc)


def history_family(name, table1, table2, universes, extras, preps=('fresh', 'shallow'), block=1, doc=''):
    """All histories op1(args); op2(result, x) / op2(x, result) / op2(result); op1(args) again.

    Every object of a history stays alive and is reused by all its later steps."""
    by_sig = {}
    for op in table1:
        by_sig.setdefault(op.kinds, []).append(op)
    sigs = sorted(by_sig)

    def gen(tier):
        u = {k: f(tier) for k, f in universes.items()}
        for i, sig in enumerate(sigs):
            for args in itertools.product(*[u[k] for k in sig]):
                yield (i, tier) + args

    ext_cache = {}

    def run(case, ctx):
        sig, tier, args = sigs[case[0]], case[1], case[2:]
        if tier not in ext_cache:
            ext_cache[tier] = extras(tier)
        exts = ext_cache[tier]
        for op1 in by_sig[sig]:
            want1 = op1.ref(*args)
            if want1 is None:
                continue
            for prep in preps:
                objs = [build(t, prep, j) for j, t in enumerate(args)]
                r1 = op1.fn(*objs)
                drive.judge(ctx, lambda: '{}({})'.format(op1.id, ', '.join(map(T.show, args))), r1, want1)
                if isinstance(want1, bool) or want1 is T.UNDEF:
                    continue
                ctx.state((want1, T.flag_vector(r1)))
                xs = [(t, build(t, prep)) for t in exts] + list(zip(args, objs)) + [(want1, r1)]
                for op2 in table2:
                    if len(op2.kinds) == 1:
                        combos = [((want1,), (r1,))]
                    elif len(op2.kinds) == 2:
                        combos = [((want1, t), (r1, o)) for t, o in xs] + [((t, want1), (o, r1)) for t, o in xs]
                    else:
                        continue
                    for ts, os_ in combos:
                        if not all(ops.fits(k, t) for k, t in zip(op2.kinds, ts)):
                            continue
                        w2 = op2.ref(*ts)
                        drive.judge(ctx, lambda: 'after {}({}) [{}]: {}({})'.format(
                            op1.id, ', '.join(map(T.show, args)), prep, op2.id, ', '.join(map(T.show, ts))),
                            op2.fn(*os_), w2)
                again = op1.fn(*objs)
                drive.judge(ctx, lambda: 'again after other operations: {}({})'.format(
                    op1.id, ', '.join(map(T.show, args))), again, want1)
                for o, t in zip(objs, args):
                    if T.term(o) != t:
                        ctx.fail('{}: operand {} became {}'.format(op1.id, T.show(t), o))
                if T.term(r1) != want1:
                    ctx.fail('{}: its result {} became {} later'.format(op1.id, T.show(want1), r1))
        ctx.trace()
    return Family(name, gen, run, block=block, doc=doc)
