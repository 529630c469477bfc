"""Symbols for arguments and generators of abstract cases."""
import itertools

from . import terms as t
from .interp import Ev, Bag
from .orders import (orders, subsets, model, CAUSET, large, some_subsets,
                     some_lists, spread)

SELF = t.sym('self', 'obj:Causet')
a = t.sym('a', 'event')
b = t.sym('b', 'event')
e = t.sym('e', 'event')
S = t.sym('S', 'set:event')
T = t.sym('T', 'set:event')
L = t.sym('L', 'list:event')
n = t.sym('n', 'int')
m = t.sym('m', 'int')


def lists(E, kmax, repeat=False):
    for k in range(kmax + 1):
        yield from (itertools.product(E, repeat=k) if repeat else
                    itertools.permutations(E, k))


def cases(ctx, nmax=4, ev=(), sets=(), lst=(), lmax=3, lrep=False, ints=None,
          sub=False, minset=0, nmin=0, tmax=None, causet=True, big=120):
    """Models: every order type with every choice of the arguments, and some
    larger orders with some choices (at most `big` each)."""
    if ctx.thorough:
        nmax = tmax or nmax + 1
    ints = ints or {}

    def gen():
        for o in orders(nmax, nmin):
            Cs = subsets(o.E) if sub else [o.all]
            for C in Cs:
                pools = [o.E for _ in ev]
                pools += [[s for s in subsets(o.E) if len(s) >= minset]
                          for _ in sets]
                pools += [list(lists(o.E, lmax, lrep)) for _ in lst]
                pools += [ints[k] for k in ints]
                names = list(ev) + list(sets) + list(lst) + list(ints)
                for ch in itertools.product(*pools):
                    yield model(o, ctx.roles, dict(zip(names, ch)), C=C)
        for o in large() if big else ():
            pools = [o.E for _ in ev]
            pools += [[s for s in some_subsets(o) if len(s) >= minset]
                      for _ in sets]
            pools += [some_lists(o) for _ in lst]
            pools += [ints[k] for k in ints]
            names = list(ev) + list(sets) + list(lst) + list(ints)
            for C in spread(some_subsets(o), 5) if sub else [o.all]:
                for ch in spread(itertools.product(*pools),
                                 4 * big if ctx.thorough else big):
                    yield model(o, ctx.roles, dict(zip(names, ch)), C=C)
    return gen


def flag_name(kw):
    return ', '.join('%s=%s' % (k, t.cval(v) if v.op == 'const' else v)
                     for k, v in kw.items())


def combos(**opts):
    """All keyword combinations; None as a value means: not given."""
    keys = list(opts)
    for ch in itertools.product(*[opts[k] for k in keys]):
        yield {k: v for k, v in zip(keys, ch) if v is not None}


def tb(v):
    return t.TRUE if v else t.FALSE


def query(ctx, qual, args, kw, models, spec, rule, ov=None, label='',
          post=None, cmp=None, pick=None):
    """The summary of one query against its specification."""
    from .interp import same

    def build():
        r = ctx.call(qual, args, kw, overrides=ov)
        return pick(r) if pick else r
    name = qual
    if kw:
        name += '(%s)' % flag_name(kw)
    if label:
        name += ' ' + label
    return ctx.decide(name, rule, [qual], build, models, spec,
                      cmp=cmp or same, post=post)


def as_set(v):
    """Collections of events compare as sets."""
    from .interp import Bag, Unk, Err
    if isinstance(v, frozenset):
        return v
    if isinstance(v, (tuple, Bag)):
        return frozenset(v.items if isinstance(v, Bag) else v)
    if isinstance(v, Err):
        return v
    raise Unk('no collection: %r' % (v,))
