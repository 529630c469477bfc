"""C27: paths and ranks."""
import itertools
import math
import random

from .. import terms as t
from ..cases import SELF, a, b, n, m
from ..distances import closed
from ..interp import Bag, Err, Unk
from ..orders import SIZES, orders, model
from ..roles import link_contracts

LEN = t.sym('len', 'str')
TUP = t.sym('tup:len', 'list:num')
Q = ['Causet.Paths']
NOTE = ('The recursive searches are reduced to least solutions of one term '
        'per recursive function (the mutable bounds of the enumeration are '
        'part of its state). Their values are compared with the paths of the '
        'Hasse diagram for every pair of events of every order type of up to '
        '%d events, and from minimal to maximal events in orders of up to 9 '
        'events. The order of the enumeration is not specified.')
RULE = ('the iteration yields every list of events from a to b with '
        'consecutive events linked exactly once, restricted to those with '
        'the requested number of events')


def special():
    """Longer orders: chains, ladders, paths of different lengths."""
    yield closed(7, [(i, i + 1) for i in range(6)])
    # paths with 3, 4, 5 and 6 events side by side
    yield closed(9, [(0, 8), (0, 1), (1, 8), (0, 2), (2, 3), (3, 8), (0, 4),
                     (4, 5), (5, 6), (6, 8), (6, 7)])
    yield closed(8, [(0, 1), (0, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 5),
                     (3, 6), (4, 5), (4, 6), (5, 7), (6, 7)])
    yield closed(8, [(0, 1), (1, 2), (2, 3), (3, 7), (0, 4), (4, 3), (4, 5),
                     (5, 7), (1, 6), (6, 7)])
    # short branch inside a long one and at each end
    yield closed(8, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 7), (1, 6),
                     (6, 5)])
    yield closed(8, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 7), (0, 5), (5, 4),
                     (3, 6), (6, 7)])
    yield closed(9, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 8), (0, 6),
                     (6, 4), (2, 7), (7, 8)])
    for k in SIZES[:2]:
        yield closed(k, [(i, i + 1) for i in range(k - 1)])
        yield closed(k + 1, [(i, i + 1) for i in range(k - 1)] +
                     [(1, k), (k, 3)])
    rng = random.Random(7)
    for k in (6, 6, 6, 7, 7, 7, 8, 8):
        yield closed(k, [(i, j) for i in range(k) for j in range(i + 1, k)
                         if rng.random() < 0.35] + [(0, k - 1)])


def paths(o, x, y):
    if x is y:
        return [(x,)]
    if not o.lt(x, y):
        return []
    return [(x,) + p for z in o.lfuture[x] if o.le(z, y)
            for p in paths(o, z, y)]


def pairs(o, small):
    for x, y in itertools.product(o.E, repeat=2):
        if small or (o.lt(x, y) and not o.past[x] and not o.future[y]):
            yield x, y


def cases(ctx, **pools):
    def gen():
        for o, small in itertools.chain(
                ((o, True) for o in orders(6 if ctx.thorough else 5)),
                ((o, False) for o in special())):
            for x, y in pairs(o, small):
                for ch in itertools.product(*pools.values()):
                    yield model(o, ctx.roles, dict(
                        zip(pools, ch), a=x, b=y))
    return gen


def selected(m, keep=None, pick=None):
    P = paths(m.o, m.syms['a'], m.syms['b'])
    if pick and P:
        d = pick(len(p) for p in P)
        P = [p for p in P if len(p) == d]
    if keep:
        P = [p for p in P if keep(len(p), m)]
    return P


def equal(v, w):
    if isinstance(v, Bag):
        v = tuple(v.items)
    if not isinstance(v, tuple):
        return False
    if not all(isinstance(p, tuple) for p in v):
        raise Unk('no list of paths: %r' % (v,))
    return sorted(v) == sorted(w)


def run(ctx):
    ov = link_contracts(ctx)

    def build(args, syms=(), head='list(Causet.Paths(a, b%s))'):
        src = 'def entry(C, a, b%s):\n    return %s\n' % (
            ''.join(', ' + s.args[0].split(':')[-1] for s in syms),
            head % args)
        return lambda: ctx.client(src, [SELF, a, b] + list(syms),
                                  overrides=ov)
    for args, spec in (
            ('', {}), (', "any"', {}), (', length="any"', {}),
            (', "min"', dict(pick=min)), (', "max"', dict(pick=max)),
            (', length="timegeo"', dict(pick=max))):
        ctx.decide('Paths(a, b%s)' % args, RULE, Q, build(args), cases(ctx),
                   lambda m, s=spec: selected(m, **s), cmp=equal)
    ctx.decide('Paths of a causet', RULE, Q,
               build('', head='list(C.Paths(a, b%s))'), cases(ctx), selected,
               cmp=equal)
    ctx.decide('Paths with a number of events', RULE, Q,
               build(', n', [n]), cases(ctx, n=range(1, 8)),
               lambda m: selected(m, lambda k, m: k == m.syms['n']),
               cmp=equal)
    ctx.decide('Paths with a range of numbers of events', RULE, Q,
               build(', [n, m]', [n, m]),
               cases(ctx, n=(1, 2, 3, 4, 5), m=(1, 2, 3, 4, 6)),
               lambda m: selected(m, lambda k, m:
                                  m.syms['n'] <= k <= m.syms['m']),
               cmp=equal)
    for name, args, syms in (('a tuple', ', len', [TUP]),
                             ('None', ', None', []), ('a number', ', 3.0', []),
                             ('a set', ', {3, 4}', [])):
        ctx.decide('Paths with %s for the length' % name,
                   'a length that is neither a string, an integer nor a list '
                   'raises a ValueError', Q, build(args, syms),
                   invalid(ctx), lambda m: True,
                   post=lambda v: v == Err('ValueError') if isinstance(
                       v, Err) else False)
    ctx.decide('Rank', 'the rank is the least number of links from the event '
               'to the other one, infinity if there is no path',
               ['CausetEvent.Rank'], build('', head='a.Rank(b)%s'),
               cases(ctx), rank, cmp=lambda v, w: v == w)
    return ctx.finish(NOTE % (6 if ctx.thorough else 5), 4)


def invalid(ctx):
    def gen():
        for o in orders(3):
            for x, y in pairs(o, True):
                yield model(o, ctx.roles, {'a': x, 'b': y,
                                           'tup:len': (3, 4)})
    return gen


def rank(m):
    P = paths(m.o, m.syms['a'], m.syms['b'])
    return float(min(len(p) for p in P) - 1) if P else math.inf
