"""C24: generated causets have the advertised structure."""
import itertools
import random

from .. import terms as t
from ..interp import Err, Unk
from ..orders import SIZES
from ..ops import new_model
from ..post import Op, run as run_op, universe, closure, mirror

N, H, P, F, R = t.sym('n', 'int'), t.sym('h', 'int'), \
    t.sym('P', 'list:int'), t.sym('F', 'any'), t.sym('r', 'num')
FORMATS = (None, '', 'E{}', '{:03d}', 'my label {:.2f}')
NOTE = ('The generators are reduced to one value graph per call form (events '
        'are allocation sites indexed by their loop variables); past and '
        'future of every generated event, its label and its coordinates are '
        'read off the graph for every permutation, length, height and label '
        'format in the bound and compared with the advertised order.')


def run(ctx):
    perms(ctx)
    for name, order in (('NewChain', lambda i, j: i < j),
                        ('NewAntichain', lambda i, j: False)):
        line(ctx, name, order)
    fences(ctx)
    simplex(ctx)
    return ctx.finish(NOTE, 4)


def fmtlabel(f, u):
    return u if f is None else f.format(u)


def same_label(x, y):
    if y == '':
        return x is None or x == ''
    return type(x) is type(y) and x == y or \
        isinstance(y, int) and not isinstance(x, bool) and x in (y, str(y))


def check(post, I, m, roots, want, out):
    """want: (list of labels or None, past sets by index, ordered?)"""
    labels, past, strict = want
    n = len(past)
    evs = post.events(I, out)
    if isinstance(evs, Err):
        return 'its events %r' % evs
    if len(evs) != n:
        return 'the causet has %d events, required %d' % (len(evs), n)
    pa, fu = universe(post, I, evs)
    if isinstance(fu, Err):
        return 'Past or Future of %r %r' % (pa, fu)
    if set(pa) != set(evs):
        return 'events outside of the causet are related to its events'
    bad = mirror(pa, fu)
    if bad:
        return bad
    got = {x: post.label(I, x) for x in evs}
    if labels is not None:
        left = list(evs)
        ids = []
        for w in labels:
            x = next((x for x in left if same_label(got[x], w)), None)
            if x is None:
                return 'no event has the label %r: %s' % (
                    w, sorted(map(repr, got.values())))
            left.remove(x)
            ids.append(x)
        if len(set(labels)) < n:
            strict = False
        if strict:
            for i, x in enumerate(ids):
                w = frozenset(ids[j] for j in past[i])
                if pa[x] != w:
                    return 'past of %r is %s, required %s' % (
                        got[x], sorted(repr(got[y]) for y in pa[x]),
                        sorted(repr(labels[j]) for j in past[i]))
    if not strict and not isomorphic(pa, past):
        return 'the causal order is %s' % {
            str(got[x]): sorted(str(got[y]) for y in pa[x]) for x in evs}
    return None


def isomorphic(pa, past):
    import networkx as nx
    A, B = nx.DiGraph(), nx.DiGraph()
    for G, p in ((A, pa), (B, past)):
        G.add_nodes_from(p)
        G.add_edges_from((y, x) for x in p for y in p[x])
    return nx.is_isomorphic(A, B)


def order2d(Q):
    n = len(Q)
    pos = {v: i for i, v in enumerate(Q)}
    return {u - 1: frozenset(w - 1 for w in range(1, u) if pos[w] < pos[u])
            for u in range(1, n + 1)}


def operation(ctx, name, quals, src, args, models, want, chk=check):
    def build():
        return ctx.client(src, args)

    def w(post, I, m, out):
        return [], want(m)
    run_op(ctx, Op(name, quals, build, models, w), name,
           'the causal order, labels (and coordinates) of the generated '
           'events are those advertised', chk)


def perms(ctx):
    nmax = 5 if ctx.thorough else 4

    def models(embedded):
        for n in list(range(nmax + 1)) + SIZES[:3]:
            for Q in itertools.permutations(range(1, n + 1)) if n < 6 else [
                    tuple(random.Random(n).sample(range(1, n + 1), n)),
                    tuple(range(1, n + 1)), tuple(range(n, 0, -1))]:
                for f in FORMATS if n in (1, 3) else FORMATS[:1]:
                    for r in (1.0, 0.5, 7.0) if embedded and n == 3 else \
                            (1.0,):
                        m = new_model(ctx, {'P': Q, 'F': f, 'r': r},
                                      'permutation %s, label format %r, '
                                      'radius %s' % (Q, f, r))
                        m.P, m.f, m.r = Q, f, r
                        yield m

    def want(m):
        return ([fmtlabel(m.f, u) for u in range(1, len(m.P) + 1)],
                order2d(m.P), True)

    def inside(post, I, m, roots, want, out):
        bad = check(post, I, m, roots, want, out)
        if bad:
            return bad
        for x in post.events(I, out):
            c = post.at(I, 'Coordinates', x)
            if isinstance(c, Err) or len(c) != 2:
                return 'coordinates %r' % (c,)
            if not abs(float(c[0])) + abs(float(c[1])) < m.r:
                return 'an event at %s is outside of the diamond of radius ' \
                    '%s' % (list(map(float, c)), m.r)
        return None
    q = 'Causet.FromPermutation'
    operation(ctx, q + '(P)', [q], 'def entry(P):\n    return ' + q + '(P)\n',
              [P], lambda: (m for m in models(False) if m.f is None), want)
    operation(ctx, q + '(P, labelFormat)', [q],
              'def entry(P, F):\n    return %s(P, F)\n' % q,
              [P, F], lambda: models(False), want)
    q = 'EmbeddedCauset.FromPermutation'
    operation(ctx, q + '(P)', [q], 'def entry(P):\n    return ' + q + '(P)\n',
              [P], lambda: (m for m in models(False) if m.f is None), want,
              inside)
    operation(ctx, q + '(P, labelFormat, radius)', [q],
              'def entry(P, F, r):\n    return %s(P, F, r)\n' % q,
              [P, F, R], lambda: models(True), want, inside)


def line(ctx, name, order):
    def models():
        for n in [-2, -1, 0, 1, 2, 3, 4, 5, 9] + SIZES[:3]:
            for f in FORMATS if n in (0, 1, 3) else FORMATS[:1]:
                m = new_model(ctx, {'n': n, 'F': f},
                              'n = %d, label format %r' % (n, f))
                m.n, m.f = max(n, 0), f
                yield m

    def want(m):
        k = range(m.n)
        return ([fmtlabel(m.f, i + 1) for i in k],
                {i: frozenset(j for j in k if order(j, i)) for i in k}, True)
    q = 'Causet.' + name
    operation(ctx, q + '(n)', [q], 'def entry(n):\n    return %s(n)\n' % q,
              [N], lambda: (m for m in models() if m.f is None), want)
    operation(ctx, q + '(n, labelFormat)', [q],
              'def entry(n, F):\n    return %s(n, F)\n' % q, [N, F], models,
              want)


def fence(length, height, closed):
    if length < 1 or height < 0:
        return {}
    rel = {(0, i): frozenset() for i in range(length)}
    for h in range(1, height + 1):
        for i in range(length):
            low = {(h - 1, i)}
            if closed or i:
                low.add((h - 1, (i - 1) % length))
            rel[h, i] = frozenset(low)
    return closure(rel)


def fences(ctx):
    q = 'Causet.NewFence'
    rng = (-1, 0, 1, 2, 3, 4)

    def models(hs, lmax=4):
        for n in rng:
            for h in hs:
                if n > lmax or n * (h + 1) > (16 if ctx.thorough else 12):
                    continue
                m = new_model(ctx, {'n': n, 'h': h},
                              'length %d, height %s' % (n, h))
                m.n, m.h = n, h
                yield m

    def want(closed):
        def f(m):
            rel = fence(m.n, m.h, closed)
            return list(range(1, len(rel) + 1)), rel, False
        return f
    for closed in (True, False):
        operation(ctx, q + '(length, height, closed=%s)' % closed, [q],
                  'def entry(n, h):\n    return %s(n, h, %s)\n' % (q, closed),
                  [N, H], lambda: models((-1, 0, 1, 2, 3)), want(closed))
    operation(ctx, q + '(length)', [q], 'def entry(n):\n    return %s(n)\n'
              % q, [N], lambda: models((1,)), want(True))
    q = 'Causet.NewCrown'
    operation(ctx, q + '(length)', [q], 'def entry(n):\n    return %s(n)\n'
              % q, [N], lambda: models((1,)), want(True))
    operation(ctx, q + '()', [q], 'def entry():\n    return %s()\n' % q, [],
              lambda: [next(m for m in models((1,)) if m.n == 3)], want(True))


def simplex(ctx):
    q = 'Causet.NewSimplex'

    def models():
        for d in (-2, -1, 0, 1, 2, 3, 4) + (5,) * ctx.thorough:
            m = new_model(ctx, {'n': d}, 'd = %d' % d)
            m.d = d
            yield m

    def want(central):
        def f(m):
            top = m.d + 1 if central or m.d == 0 else m.d
            faces = [frozenset(c) for k in range(1, top + 1) for c in
                     itertools.combinations(range(m.d + 1), k)]
            return None, {x: frozenset(y for y in faces if y < x)
                          for x in faces}, False
        return f
    for args, central in (('', True), (', True', True), (', False', False)):
        operation(ctx, q + '(d%s)' % args, [q],
                  'def entry(n):\n    return %s(n%s)\n' % (q, args), [N],
                  models, want(central))
