"""C26: distances along antichains and shortest antipaths."""
import itertools

from .. import terms as t
from ..cases import SELF, L, S, a, b
from ..core import Skip
from ..distances import cases, distances
from ..interp import Bag, Interp, Err, Unk
from ..roles import link_contracts
from .c12 import eqmat

AB = t.sym('L', 'set:event')
D = t.sym('D', 'array')
NOTE = ('The distance matrix (nested recurrences over the slices, pairs and '
        'distances) and the recursive search for antipaths (least solution '
        'of one term) are compared with breadth-first distances for every '
        'antichain of every order type of up to 4 (thorough: 5) events and '
        'of longer fences, crowns and thick slices. A slice around an '
        'antichain grows by one layer to the past and the future at a time; '
        'a pair is decided in the first slice that joins it.')


def geodesics(m, x, y):
    """All shortest lists of antichain events with distance one in turn."""
    l = tuple(m.syms['L'])
    if isinstance(m.syms['L'], frozenset):
        l = tuple(sorted(l))
    if x not in l or y not in l:
        return []
    if x is y:
        return [(x,)]
    dist = m.D
    n = len(l)
    for i, j in itertools.product(range(n), repeat=2):
        if dist[i, j] != steps(dist, i, j):
            # decided in different slices: the shortest path is not unique
            raise Skip('no path metric')
    i, j = l.index(x), l.index(y)
    if dist[i, j] < 0:
        return []

    def walk(i):
        if i == j:
            return [(l[i],)]
        return [(l[i],) + p for k in range(n)
                if dist[i, k] == 1 and dist[k, j] == dist[i, j] - 1
                for p in walk(k)]
    return walk(i)


def steps(dist, i, j):
    seen, cur, d = {i}, {i}, 0
    while j not in cur:
        cur = {k for h in cur for k in range(len(dist))
               if dist[h, k] == 1} - seen
        if not cur:
            return -1
        seen |= cur
        d += 1
    return d


def equal(v, w):
    if isinstance(v, Bag):
        v = tuple(v.items)
    if not isinstance(v, tuple):
        return False
    if not all(isinstance(p, tuple) for p in v):
        raise Unk('no list of paths: %r' % (v,))
    return sorted(v) == sorted(w)


def run(ctx):
    ov = link_contracts(ctx)
    for args in ('', ', "ziczac"', ', recursive=True'):
        ctx.decide('DistanceMatrix(antichain%s) values' % args,
                   'the distance of two antichain events is the least number '
                   'of ziczac steps in the thinnest slice that joins them, -1 '
                   'if no slice does',
                   ['Causet.DistanceMatrix'],
                   lambda args=args: ctx.client(
                       'def entry(C, L):\n    return C.DistanceMatrix(L%s)\n'
                       % args, [SELF, L], overrides=ov),
                   cases(ctx), lambda m: distances(m.o, m.syms['L']),
                   cmp=eqmat)

    def pairs(as_set=False, given=False):
        def gen():
            for m in cases(ctx, rev=not as_set)():
                l = m.syms['L']
                if as_set:
                    l = tuple(sorted(l))
                    if l != m.syms['L']:
                        continue
                dist = distances(m.o, l)
                k = 0
                for x, y in itertools.product(m.o.E, repeat=2):
                    k += 1
                    if (x not in l or y not in l) and k % 3:
                        continue
                    if m.o.n > 6 and (x not in l or y not in l):
                        continue
                    yield variant(m, dist, x, y, l, as_set, given)
        return gen
    RULE = ('the iteration yields every shortest list of antichain events '
            'from a to b with ziczac distance one in turn exactly once, [a] '
            'if both are the same event, and nothing if they are not joined '
            'or not on the antichain')
    for name, src, args, flags in (
            ('of a list', 'list(C.Antipaths(a, b, L))', [SELF, a, b, L],
             (False, False)),
            ('of a set', 'list(C.Antipaths(a, b, L))', [SELF, a, b, AB],
             (True, False)),
            ('with given distances',
             'list(C.Antipaths(a, b, L, D))', [SELF, a, b, L, D],
             (False, True)),
            ('with given distances by keyword',
             'list(C.Antipaths(a, b, along=L, distances=D))',
             [SELF, a, b, L, D], (False, True))):
        ctx.decide('Antipaths %s' % name, RULE, ['Causet.Antipaths'],
                   lambda src=src, args=args: ctx.client(
                       'def entry(C, a, b, L%s):\n    return %s\n'
                       % (', D' if len(args) > 4 else '', src), args,
                       overrides=ov),
                   pairs(*flags),
                   lambda m: geodesics(m, m.syms['a'], m.syms['b']),
                   cmp=equal)
    return ctx.finish(NOTE, 2)


def variant(m, dist, x, y, l, as_set, given):
    import copy
    n = copy.copy(m)
    n.syms = dict(m.syms, a=x, b=y)
    if as_set:
        n.syms['L'] = frozenset(l)
    if given:
        n.syms['D'] = dist
    n.D = dist
    n.desc = m.desc + '; a=%s; b=%s' % (x, y)
    return n
