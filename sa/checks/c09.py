"""C09: instances share no mutable state."""
import ast
import itertools

import numpy as np

from .. import terms as t
from ..cases import SELF, S, L
from ..evalr import State
from ..interp import Interp, Bag, Unk, Err, Obj, Model, Draws
from ..orders import orders, subsets, model
from ..ops import NO_RELATIONS
from ..shapes import Shape, NAMES, PARAMS, SYM
from .. import spacetime as sp
from .c08 import (SYMS, CONTAINERS, names, anchor, exprs, same_value, patch, before_after,
                  AX, SYM_NAME, KEYS, VALUES, points, st_models)

x, y, w = (t.sym(k, 'event') for k in 'xyw')

RULE = 'alias analysis: containers are object references (argument, default ' \
       'argument, class attribute and result); changing one in place leaves ' \
       'every observation of every other instance as it was'

# results of queries: what the caller does with them is his business
RESULTS = '''
x.Cone | x.PresentOrPast | x.PresentOrFuture | x.Spacelike(S) | x.LinkCone
C - S | C & S | C ^ S | S - C | S & C | S ^ C | C.__or__(S) | C.__ror__(S)
C.difference(S) | C.intersection(S) | C.symmetric_difference(S) | C.union(S)
C.PastInf | C.FutureInf | Causet.PastInfOf(S) | Causet.FutureInfOf(S)
Causet.PastOf(S) | Causet.PastOf(S, includePresent=True)
Causet.PastOf(S, intersect=True) | Causet.FutureOf(S)
Causet.FutureOf(S, includePresent=True) | Causet.FutureOf(S, intersect=True)
Causet.ConeOf(S) | Causet.ConeOf(S, includePresent=False)
Causet.ConeOf(S, intersect=True) | C.SpacelikeTo(S)
Causet.Interval(x, y) | Causet.Interval(x, y, False)
Causet.PerimetralEvents(x, y) | Causet.InternalEvents(x, y)
C.CentralAntichain() | C.CentralAntichain(x)
Causet.Layers(S, -1) | Causet.Layers(S, 1) | Causet.Ranks(S, -1)
Causet.Ranks(S, 1) | Causet.LayerNumbers(L) | Causet.RankNumbers(L)
C.findAll(n, m) | C.sortedByLabels() | C.sortedByLabels(S)
C.sortedByCausality() | C.sortedByCausality(S) | C.disjoint() | C.disjoint(S)
C.layered() | C.layered(S) | Causet.merge(S, T, True)
C.PastMatrix() | C.FutureMatrix() | C.LinkPastMatrix() | C.LinkFutureMatrix()
C.DistanceMatrix(L)
'''
NESTED = ('disjoint', 'layered')
LISTS = ('LayerNumbers', 'RankNumbers', 'findAll', 'sorted')


def change(expr):
    """Statements that change the container R in place."""
    if 'Matrix' in expr:
        return ['R.fill(7)']
    if any(k in expr for k in NESTED):
        return ['for r in R:\n        r.clear()', 'R.clear()']
    if any(k in expr for k in LISTS):
        return ['R.clear()']
    return ['R.clear()', 'R.add(w)']


def copied(expr):
    if 'Matrix' in expr:
        return 'np.array(%s)' % expr
    if any(k in expr for k in NESTED):
        return 'list(set(r) for r in %s)' % expr
    if any(k in expr for k in LISTS):
        return 'list(%s)' % expr
    return 'set(%s)' % expr


VIEW = '(set(w.Past), set(w.Future), w.Label, set(C), set(S))'


def fragment(ctx, name, quals, src, args, refs=(), views=None, nmax=3,
             cases=None, overrides=None, modules=()):
    """The fragment returns (before, after); containers named in refs are
    objects with an identity."""
    def fn():
        ev = ctx.evaluator(overrides)
        ev.shared = True
        ev.modules = modules
        st = State()
        vals = []
        for k in args:
            v = SYMS[k] if isinstance(k, str) else k
            if k in refs:
                v = ev.new_ref(st, v, v.sort.split(':')[0])
            vals.append(v)
        r = ev.run(ctx.prog.client(src), vals, {}, st=st)
        ctx.functions.update(q for q in ev.inlined if q != 'entry')
        out = r.outcome
        for mod in cases():
            for perm in range(2):
                I = Interp(mod, perm)
                try:
                    v = I.outcome(out)
                    if isinstance(v, Err) or not isinstance(v, tuple) or \
                            len(v) != 2:
                        raise Unk('%r' % (v,))
                except Unk as e:
                    yield 'unk', 'value not known: %s: %s' % (mod.desc, e)
                    break
                if same(*v):
                    yield 'ok', None
                else:
                    yield 'bad', 'case: %s -- %s: %r became %r' % (
                        mod.desc, name, v[0], v[1])
                    return
                if not I.free_order:
                    break
    ctx.obligation(name, RULE, quals, fn)


def same(a, b):
    if isinstance(a, Bag):
        a = tuple(a.items)
    if isinstance(b, Bag):
        b = tuple(b.items)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return same_value(a, b)


def event_cases(ctx, args, nmax=3, C=None):
    def gen():
        for o in orders(nmax, 1):
            lists_ = [l for k in range(o.n + 1)
                      for l in itertools.permutations(o.E, k)]
            pool = {'x': o.E, 'y': o.E, 'w': o.E, 'S': list(subsets(o.E)),
                    'T': list(subsets(o.E)), 'L': lists_, 'n': (1,),
                    'm': (2,), 'K': ((0.5, 1.5),), 'P': ((2, 1, 3),),
                    'D': [np.array(((0., 0.), (1., 0.)))]}
            ks = [k for k in args if k != 'C']
            for ch in itertools.product(*[pool[k] for k in ks]):
                yield model(o, ctx.roles, dict(zip(ks, ch)), C=o.all)
    return gen


def results(ctx):
    for q in exprs(RESULTS):
        args = sorted(set(names(q)) | {'w', 'C', 'S'})
        for ch in change(q):
            src = 'def entry(%s):\n    b = (%s, %s)\n    R = %s\n    %s\n' \
                '    return b, (%s, %s)\n' % (
                    ', '.join(args), VIEW, copied(q), q, ch, VIEW, copied(q))
            fragment(ctx, 'R = %s; %s' % (q, ' '.join(ch.split())),
                     anchor(ctx, q) or ['Causet.' + q.split('.')[1].split(
                         '(')[0]], src, args,
                     [k for k in args if k in ('S', 'L', 'T')],
                     cases=event_cases(ctx, args, 2 if len(args) > 4 else 3))



# name of the construct -> (containers given, statements, view); the view is
# taken before and after the last statement
GIVEN = """
Causet.__init__ | A = Causet(S) | S.clear() | set(A)
Causet.__init__ | A = Causet(S) | S.add(w) | set(A)
Causet.__init__ | A = Causet(L) | L.clear() | set(A)
Causet.__init__ | A = Causet(S) | A.add({w}) | set(S)
Causet.__init__ | A = Causet(S) | A.discard(set(A)) | set(S)
Causet.__init__ | A = Causet(L) | A.add({w}) | list(L)
Causet.__init__ | A = Causet(S); B = Causet(S) | B.add({w}) | set(A)
Causet.__init__ | A = Causet(S); B = Causet(S) | B.discard(set(B)) | set(A)
Causet.__init__ | A = Causet(C.union(S)) | A.add({w}) | set(C)
Causet.__init__ | A = Causet(C.union(S)) | A.discard(C) | set(C)
Causet.__init__ | A = Causet(C.PastInf) | A.discard({w}) | set(C)
Causet.__init__ | A = Causet(); B = Causet() | A.add({w}) | set(B)
Causet.__init__ | A = Causet() | A.add(S) | set(Causet())
Causet.__init__ | A = Causet() | A.discard(S) | set(Causet())
Causet.add | C.add(S) | S.clear() | set(C)
Causet.add | C.add(S) | C.discard({w}) | set(S)
Causet.add | A = Causet(); A.add(C) | A.discard({w}) | set(C)
Causet.add | A = Causet(); A.add(C) | A.discard({w}) | set(Causet())
Causet.add | A = Causet(); A.add(S) | S.clear() | set(A)
Causet.discard | C.discard(S) | S.add(w) | set(C)
Causet.merge | A = Causet.merge(S, T, True) | S.clear() | set(A)
Causet.merge | A = Causet.merge(S, T, True) | T.clear() | set(A)
Causet.merge | A = Causet.merge(S, T, True) | A.discard({w}) | set(S), set(T)
Causet.merge | A = Causet.merge(S, T, True) | A.add({w}) | set(S), set(T)
Causet.merge | A = Causet.merge(S, C, True) | A.discard({w}) | set(C)
Causet.merge | A = Causet.merge(C, T, True) | A.add({w}) | set(C)
Causet.__or__ | A = C | S | C.discard({w}) | set(A)
Causet.__or__ | A = C | S | C.add({w}) | set(A)
Causet.__and__ | A = C & S | C.discard({w}) | set(A)
Causet.__sub__ | A = C - S | C.add({w}) | set(A)
Causet.__xor__ | A = C ^ S | C.discard({w}) | set(A)
Causet.union | A = C.union(S) | C.discard({w}) | set(A)
Causet.union | A = C.union(set()) | C.discard({w}) | set(A)
Causet.difference | A = C.difference(set()) | C.discard({w}) | set(A)
Causet.intersection | A = C.intersection(S) | C.discard({w}) | set(A)
Causet.disjoint | A = C.disjoint() | C.discard({w}) | list(set(k) for k in A)
Causet.layered | A = C.layered() | C.discard({w}) | list(set(k) for k in A)
Causet.sortedByLabels | A = C.sortedByLabels(); B = C.sortedByLabels() | A.clear() | set(B)
CausetEvent.__init__ | f = CausetEvent(past=S) | S.clear() | set(f.Past)
CausetEvent.__init__ | f = CausetEvent(past=S) | S.add(w) | set(f.Past)
CausetEvent.__init__ | f = CausetEvent(future=S) | S.clear() | set(f.Future)
CausetEvent.__init__ | f = CausetEvent(past=L) | L.clear() | set(f.Past)
CausetEvent.__init__ | f = CausetEvent(past=S) | g = CausetEvent(future={f}) | set(S)
CausetEvent.__init__ | f = CausetEvent(future=S) | g = CausetEvent(past={f}) | set(S)
CausetEvent.__init__ | f = CausetEvent(past=S); g = CausetEvent(past=S) | h = CausetEvent(future={f}) | set(g.Past), set(g.Future)
CausetEvent.__init__ | f = CausetEvent(future=S); g = CausetEvent(future=S) | h = CausetEvent(past={f}) | set(g.Past), set(g.Future)
CausetEvent.__init__ | f = CausetEvent(past=x.Past) | g = CausetEvent(future={f}) | set(x.Past)
CausetEvent.__init__ | f = CausetEvent(future=x.Future) | g = CausetEvent(past={f}) | set(x.Future)
CausetEvent.__init__ | f = CausetEvent(); g = CausetEvent() | h = CausetEvent(past={f}) | set(g.Past), set(g.Future)
CausetEvent.__init__ | f = CausetEvent(); g = CausetEvent() | h = CausetEvent(future={f}) | set(g.Past), set(g.Future)
CausetEvent.__init__ | f = CausetEvent(label=1) | h = CausetEvent(future={f}, label=2) | set(CausetEvent().Past)
CausetEvent.__init__ | f = CausetEvent(label=1) | h = CausetEvent(past={f}, label=2) | set(CausetEvent().Future)
CausetEvent.disjoin | f = CausetEvent(past=S) | f.disjoin() | set(S)
CausetEvent.copy | f = x.copy() | g = CausetEvent(past={f}) | set(x.Past), set(x.Future)
CausetEvent.copy | f = x.copy() | g = CausetEvent(future={f}) | set(x.Past), set(x.Future)
CausetEvent.copy | f = x.copy() | g = CausetEvent(past={x}) | set(f.Past), set(f.Future)
CausetEvent.copy | f = x.copy() | g = CausetEvent(future={x}) | set(f.Past), set(f.Future)
CausetEvent.copy | e = CausetEvent(); f = e.copy() | g = CausetEvent(past={f}) | set(e.Past), set(e.Future)
CausetEvent.copy | e = CausetEvent(); f = e.copy() | g = CausetEvent(future={f}) | set(e.Past), set(e.Future)
CausetEvent.copy | e = CausetEvent(); f = e.copy() | g = CausetEvent(past={e}) | set(f.Past), set(f.Future)
CausetEvent.copy | e = CausetEvent(); f = e.copy() | g = CausetEvent(future={e}) | set(f.Past), set(f.Future)
CausetEvent.copy | a = CausetEvent(); e = CausetEvent(past={a}); f = e.copy() | a.disjoin() | set(f.Past)
CausetEvent.copy | e = CausetEvent(); e.link(); f = e.copy() | g = CausetEvent(past={f}) | set(e.LinkPast), set(e.LinkFuture)
CausetEvent.copy | e = CausetEvent(); e.link(); f = e.copy() | g = CausetEvent(future={f}) | set(e.LinkPast), set(e.LinkFuture)
CausetEvent.copy | e = CausetEvent(label='a', position=K); f = e.copy() | f.Position = [0.25, 0.5] | list(e.Position)
CausetEvent.copy | f = x.copy() | f.disjoin() | set(x.Past), set(x.Future)
CausetEvent.copy | f = x.copy() | x.disjoin() | set(f.Past), set(f.Future)
CausetEvent.copy | x.link(); f = x.copy() | g = CausetEvent(past={f}) | set(x.LinkPast), set(x.LinkFuture)
CausetEvent.copy | x.link(); f = x.copy() | g = CausetEvent(future={f}) | set(x.LinkPast), set(x.LinkFuture)
CausetEvent.copy | x.link(); f = x.copy() | g = CausetEvent(past={x}) | set(f.Past), set(f.LinkFuture)
CausetEvent.copy | f = x.copy() | f.Past.clear() | set(x.Past)
CausetEvent.copy | f = x.copy() | x.Past.add(w) | set(f.Past)
CausetEvent.copy | f = x.copy() | f.Future.clear() | set(x.Future)
CausetEvent.copy | f = x.copy() | x.Future.add(w) | set(f.Future)
CausetEvent.copy | x.link(); f = x.copy() | f.LinkPast.clear() | set(x.LinkPast)
CausetEvent.copy | x.link(); f = x.copy() | f.LinkFuture.clear() | set(x.LinkFuture)
CausetEvent.copy | f = CausetEvent(position=K); g = f.copy() | g.Position.clear() | list(f.Position)
CausetEvent.copy | f = x.copy() | f.Label = 17 | x.Label
CausetEvent.copy | f = x.copy() | x.Label = 17 | f.Label
CausetEvent.copy | f = x.copy() | f.embed([1.0, 2.0], True) | x.isEmbedded
CausetEvent.copy | f = x.copy() | f.Position = [1.0, 2.0] | list(x.Position)
CausetEvent.embed | f = CausetEvent(); f.embed(K) | K.clear() | list(f.Coordinates)
CausetEvent.embed | f = CausetEvent(); f.embed(K); f.embed(K, True) | K.clear() | list(f.Coordinates)
CausetEvent.embed | f = CausetEvent(); f.embed(K) | f.Coordinates.clear() | list(K)
CausetEvent.embed | f = CausetEvent(); g = CausetEvent(); f.embed(K); g.embed(K) | f.Coordinates.clear() | list(g.Coordinates)
CausetEvent.embed | f = CausetEvent(coordinates=K); g = CausetEvent(coordinates=f.Coordinates) | f.Coordinates.clear() | list(g.Coordinates)
CausetEvent.__init__ | f = CausetEvent(coordinates=K) | K.clear() | list(f.Coordinates)
CausetEvent.__init__ | f = CausetEvent(position=K) | K.clear() | list(f.Position)
CausetEvent.__init__ | f = CausetEvent(position=K) | f.Position.clear() | list(K)
CausetEvent.Position | f = CausetEvent(); f.Position = K | K.clear() | list(f.Position)
CausetEvent.Position | f = CausetEvent(); g = CausetEvent() | f.Position.clear() | list(g.Position)
CausetEvent.Position | f = CausetEvent(); g = CausetEvent(); g.Position = K; f.Position = g.Position | f.Position.clear() | list(g.Position)
Causet.FromPermutation | A = Causet.FromPermutation(P) | P.clear() | A.Card, set(len(e.Past) for e in A)
Causet.FromPermutation | A = Causet.FromPermutation(P); B = Causet.FromPermutation(P) | A.discard(set(A)) | B.Card, set(len(e.Past) for e in B)
Causet.FromPastMatrix | A = Causet.FromPastMatrix(D) | D.fill(0) | A.Card, set(len(e.Past) for e in A)
Causet.FromFutureMatrix | A = Causet.FromFutureMatrix(D) | D.fill(0) | A.Card, set(len(e.Past) for e in A)
Causet.PastMatrix | A = C.PastMatrix(); B = C.PastMatrix() | A.fill(7) | np.array(B)
Causet.NewChain | A = Causet.NewChain(3); B = Causet.NewChain(3) | A.discard(set(A)) | B.Card
Causet.NewChain | A = Causet.NewChain(2); B = Causet.NewChain(2) | g = CausetEvent(past=set(A)) | set(len(e.Future) for e in B)
Causet.NewAntichain | A = Causet.NewAntichain(3); B = Causet.NewAntichain(3) | A.discard(set(A)) | B.Card
Causet.NewAntichain | A = Causet.NewAntichain(2); B = Causet.NewAntichain(2) | g = CausetEvent(past=set(A)) | set(len(e.Future) for e in B)
Causet.NewSimplex | A = Causet.NewSimplex(2); B = Causet.NewSimplex(2) | A.discard(set(A)) | B.Card
Causet.NewFence | A = Causet.NewFence(2); B = Causet.NewFence(2) | A.discard(set(A)) | B.Card
Causet.NewCrown | A = Causet.NewCrown(2); B = Causet.NewCrown(2) | A.discard(set(A)) | B.Card
"""


def given(ctx):
    for line in GIVEN.strip().split('\n'):
        head, rest = line.split(' | ', 1)
        rest, view = rest.rsplit(' | ', 1)
        make, last = rest.rsplit(' | ', 1)
        body = ast.parse('%s\n%s\n%s' % (make, last, view))
        made = {k.id for k in ast.walk(body) if isinstance(k, ast.Name) and
                isinstance(k.ctx, ast.Store)}
        args = sorted({k.id for k in ast.walk(body) if isinstance(k, ast.Name)
                       and k.id in SYMS} - made)
        src = 'def entry(%s):\n    %s\n    b = (%s,)\n    %s\n' \
            '    return b, (%s,)\n' % (', '.join(args), make, view, last,
                                       view)
        fragment(ctx, '%s; %s: %s' % (make, last, view), [head], src, args,
                 [k for k in args if k in CONTAINERS],
                 cases=event_cases(ctx, args,
                                   2 if len(args) > 3 else 3))



# ------------------------------------------------ objects with parameters
SV = {'radius': 'float(%s.Parameter("radius"))',
      'hollow': 'float(%s.Parameter("hollow"))',
      'duration': 'float(%s.Parameter("duration"))',
      'edge': 'float(%s.Parameter("edge"))',
      'edges': 'list(%s.Parameter("edges"))'}


def shape_view(name, v):
    return '(%s.Dim, %s.Name, list(%s.Center), float(%s.Volume)%s)' % (
        v, v, v, v, ''.join(', ' + SV[k] % v for k in PARAMS[name]))


def numbers(ctx, name, quals, src, args, models, overrides=None):
    def cases():
        for m in models():
            yield m
    fragment(ctx, name, quals, src, args, cases=cases, overrides=overrides)


def shapes(ctx):
    q = ['CoordinateShape.__init__']
    for name in NAMES:
        for d in (2, 3):
            s = Shape(name, d, PARAMS[name] + ('center',))
            head = 'def entry(%s):\n' % ', '.join(s.syms)
            vals = [SYM[k] for k in s.syms]
            A, B = (shape_view(name, k) for k in 'AB')
            plain = 'CoordinateShape(%d, %r)' % (d, name)

            def models(s=s):
                return (patch(m) for m in s.models(2))
            # containers given to the constructor
            for k in ('c', 'es'):
                if k not in s.syms:
                    continue
                for how, ch in (('list(%s)', 'X.clear()'),
                                ('np.array(%s)', 'X.fill(9.0)'),
                                ('np.array(%s, dtype=np.float32)',
                                 'X.fill(9.0)')):
                    ex = s.expr().replace('=%s,' % k, '=X,').replace(
                        '=%s)' % k, '=X)')
                    how = how % k
                    numbers(ctx, '%s, X = %s; %s' % (ex, how, ch), q,
                            head + '    X = %s\n    A = %s\n    b = %s\n'
                            '    %s\n    return b, %s\n' % (
                                how, ex, A, ch, A), vals, models)
            for one, two in ((s.expr(), plain), (plain, s.expr()),
                             (plain, plain), (s.expr(), s.expr())):
                for last in ('B = %s' % two, 'B = %s\n    B.Center.fill(9.0)'
                             % two) + (('B = %s\n    B.Parameter("edges")'
                                        '.fill(9.0)' % two,)
                                       if name == 'cuboid' else ()):
                    numbers(ctx, '%s; %s' % (one, ' '.join(last.split())), q,
                            head + '    A = %s\n    b = %s\n    %s\n'
                            '    return b, %s\n' % (one, A, last, A), vals,
                            models)
                # as made before
                numbers(ctx, '%s; Center changed; %s' % (one, two), q,
                        head + '    B = %s\n    b = %s\n    A = %s\n'
                        '    A.Center.fill(9.0)\n    B = %s\n'
                        '    return b, %s\n' % (two, B, one, two, B), vals,
                        models)
            ex = 'CoordinateShape(%d, %r, center=A.Center)' % (d, name)
            numbers(ctx, ex, q, head + '    A = %s\n    B = %s\n    b = %s\n'
                    '    A.Center.fill(9.0)\n    return b, %s\n' % (
                        s.expr(), ex, B, B), vals, models)


def spacetimes(ctx):
    for c in sp.configs():
        args = [a.args[0].replace('tup:', '') for a in c.args]
        keys = KEYS[c.kind] + (('period',) if 'P' in args else ())
        view = '(%%s.Dim, %%s.Name, %%s.MetricName, ' \
            '%%s.Causality()(np.array(x), np.array(y))%s)' % \
            ''.join(', list(%%s.Parameter(%r))' % k if k == 'period' else
                    ', %%s.Parameter(%r)' % k for k in keys)
        others = ['spacetimes.FlatSpacetime(%d)' % c.dim]
        if c.dim >= 2:
            others += ['deSitterSpacetime(%d, 3.5)' % c.dim,
                       'AntideSitterSpacetime(%d, 2.5)' % c.dim,
                       'BlackHoleSpacetime(2, 4.5, metric="Schwarzschild")',
                       'FlatSpacetime(%d, %s)' % (c.dim, '4.5')]
        head = 'def entry(x, y%s):\n    A = %s\n' % (
            ''.join(', ' + k for k in args), c.expr)
        vals = [t.sym('x', 'array'), t.sym('y', 'array')] + list(c.args)
        va = view.replace('%s', 'A')
        for o in others:
            numbers(ctx, '%s; B = %s' % (c.name, o),
                    [c.cls + '.__init__'],
                    head + '    b = %s\n    B = %s\n    return b, %s\n' % (
                        va, o, va), vals, lambda c=c: st_models(c))
        sv = '(S.Dim, S.Name, list(S.Center))'
        numbers(ctx, '%s: two default shapes' % c.name,
                [c.cls + '.DefaultShape'
                 if 'DefaultShape' in ctx.prog.cls(c.cls).methods
                 else 'Spacetime.DefaultShape'],
                head + '    S = A.DefaultShape()\n    b = %s\n'
                '    B = A.DefaultShape()\n    B.Center.fill(9.0)\n'
                '    S2 = S\n    S = A.DefaultShape()\n'
                '    return (b, b), (%s, %s)\n' % (
                    sv, sv, sv.replace('S.', 'S2.')), vals,
                lambda c=c: st_models(c))


EMBEDDED = """
EmbeddedCauset(shape=S, coordinates=K)
EmbeddedCauset(deSitterSpacetime(2), S, K)
SprinkledCauset(dim=2, shape=S)
EmbeddedCauset(shape="diamond", coordinates=K)
EmbeddedCauset("de Sitter", coordinates=K)
EmbeddedCauset(coordinates=K)
EmbeddedCauset()
EmbeddedCauset(dim=2)
SprinkledCauset()
"""
EV = '(%s.Dim, %s.Card, %s.Shape.Dim, %s.Shape.Name, ' \
    'list(%s.Shape.Center), %s.Spacetime.Name, %s.Spacetime.Dim, ' \
    '[(e.Label, list(e.Coordinates)) for e in %s])'


def embedded(ctx):
    X = t.sym('X', 'list:list:num')

    def models():
        for pts in (((0.0, 0.0), (0.5, 0.25)), ((0.25, -0.5),)):
            mod = Model({'X': pts, 'r': 1.5}, {}, 'coordinates %s' % (pts,))
            mod.draws = Draws(len(pts))
            yield patch(mod)
    args = [X, t.sym('r', 'num')]
    for line in EMBEDDED.strip().split('\n'):
        cls = line.split('(')[0]
        v, w_ = EV.replace('%s', 'A'), EV.replace('%s', 'B')
        plain = 'K' not in line
        mk = line + ('\n    A.create(K)' if plain else '')
        for how in ('[list(c) for c in X]', 'np.array(X)'):
            head = 'def entry(X, r):\n    K = %s\n' \
                '    S = CoordinateShape(2, "diamond", radius=r)\n' \
                '    A = %s\n' % (how, mk)
            for ch in (['K.fill(9.0)', 'K[0][0] = 9.0']
                       if 'array' in how else
                       ['K.clear()', 'K[0].clear()', 'K[0][0] = 9.0']):
                numbers(ctx, '%s, K = %s; %s' % (line, how, ch),
                        [cls + '.__init__', 'EmbeddedCauset.create'],
                        head + '    b = %s\n    %s\n    return b, %s\n' % (
                            v, ch, v), args, models, NO_RELATIONS)
        head = 'def entry(X, r):\n    K = [list(c) for c in X]\n' \
            '    S = CoordinateShape(2, "diamond", radius=r)\n'
        for last in ('B.create(K)', 'B.discard(set(B))',
                     'R = B.create(K)\n    R.clear()') + \
                (('B.Shape.Center.fill(9.0)',) if '=S' not in line and
                 ', S' not in line else ()):
            # two of them, and a new one made afterwards
            mk2 = mk.replace('A.create', 'B.create')
            numbers(ctx, 'A = %s; B = %s; %s' % (line, line,
                                                 ' '.join(last.split())),
                    [cls + '.__init__', 'EmbeddedCauset.create'],
                    head + '    A = %s\n    b = %s\n    B = %s\n    %s\n'
                    '    return b, %s\n' % (mk, v, mk2, last, v), args,
                    models, NO_RELATIONS)
            numbers(ctx, 'B = %s; %s; A = %s' % (
                line, ' '.join(last.split()), line),
                [cls + '.__init__', 'EmbeddedCauset.create'],
                head + '    A = %s\n    b = %s\n    B = %s\n    %s\n'
                '    A = %s\n    return b, %s\n' % (mk, v, mk2, last, mk, v),
                args, models, NO_RELATIONS)
        numbers(ctx, 'A = %s; R = A.create(K); R.clear()' % line,
                [cls + '.__init__', 'EmbeddedCauset.create'],
                head + '    A = %s\n    R = A.create(K)\n    b = %s\n'
                '    R.clear()\n    return b, %s\n' % (line, v, v),
                args, models, NO_RELATIONS)



# ------------------------------------------------------------------ plots
PLOTS = """
causetplotting.plot(E, ax, st%s)
causetplotting.Plotter(E, ax, st%s)(TM)
causetplotting.plotDiagram(E, [], ax%s)
causetplotting.plotDiagram(E, plotAxes=ax%s)
"""
FIRST = (
    'pastcones={"alpha": 0.5, "facecolor": "cs:pink"}',
    'futurecones=True, conetimefade=""',
    'links={"color": "cs:lime", "marker": ""}, events=False',
    'events={"markerfacecolor": "cs:red", "alpha": 0.75}, labels=False',
    'labels={"color": "cs:core"}, dims=[0, 1]',
    'axislim={"xlim": (-1.0, 1.0), "ylim": (0.0, 2.0)}, aspect=["auto"]',
    'links=False, linkgapsize=0.5',
    'timedepth=1.5, timefade="intensity"',
)
SECOND = ('', ', links={"alpha": 0.5}', ', pastcones=True')
CHANGE = ('R["dims"].clear()', 'R.clear()', 'R["links"].clear()',
          'R["events"].clear()', 'R["labels"].clear()',
          'R["aspect"].clear()', 'R["links"]["markevery"].append(3)')


def independent(ctx, name, quals, src0, src1, args, models, overrides=None,
                modules=()):
    """What the second fragment returns is what the first one returns."""
    def fn():
        outs = []
        for src in (src0, src1):
            ev = ctx.evaluator(overrides() if overrides else None)
            ev.shared = True
            ev.modules = modules
            r = ev.run(ctx.prog.client(src), list(args), {})
            ctx.functions.update(q for q in ev.inlined if q != 'entry')
            outs.append(r.outcome)
        for mod in models():
            try:
                v = [Interp(mod).outcome(o) for o in outs]
            except Unk as e:
                yield 'unk', 'value not known: %s: %s' % (mod.desc, e)
                continue
            if isinstance(v[0], Err):
                yield 'unk', 'value not known: %s: %r' % (mod.desc, v[0])
            elif same(*v):
                yield 'ok', None
            else:
                yield 'bad', 'case: %s -- %s: %r instead of %r' % (
                    mod.desc, name, v[1], v[0])
                return
    ctx.obligation(name, RULE, quals, fn)


def plots(ctx):
    from ..roles import link_contracts
    from .c22 import axes_overrides, cone_overrides, MODULES, field_name, ext
    fc = field_name(ctx, 'Coordinates', '_coordinates')
    fp = field_name(ctx, 'Position', '_position')

    def models():
        for o in orders(2, 2):
            for p, q in itertools.permutations(o.E):
                mod = model(o, ctx.roles, {'x': p, 'y': q,
                                           'TM': (0.25, 0.5), 'q': 0.4},
                            C=o.all)
                co = {e: np.array([e.n * 0.75, 0.25 - e.n * 0.5, 0.0])
                      for e in o.E}
                mod.maps['has:' + fc] = lambda e: True
                mod.maps['has:' + fp] = lambda e: True
                mod.maps[fc] = lambda e, co=co: co[e]
                mod.maps[fp] = lambda e: (e.n * 0.5, 0.25)
                mod.maps['axes:log'] = lambda x: ()
                mod.apps['drawn'] = lambda *z: tuple(z)
                mod.apps['star'] = lambda *z: tuple(itertools.chain(*z))
                yield mod
    # parameters
    q = ['causetplotting:plot_parameters']
    for two in SECOND:
        src0 = 'def entry():\n    return causetplotting.plot_parameters(%s)\n'\
            % two[2:]
        for one in ('',) + FIRST:
            for ch in ('',) + CHANGE:
                if ch and one not in ('', FIRST[0]):
                    continue
                if 'links' in ch and 'links=False' in one:
                    continue
                independent(
                    ctx, 'R = plot_parameters(%s); %s; plot_parameters(%s)'
                    % (one, ch, two[2:]), q, src0,
                    'def entry():\n    R = causetplotting.plot_parameters(%s)'
                    '\n    %s\n    return causetplotting.plot_parameters(%s)'
                    '\n' % (one, ch or 'pass', two[2:]), [],
                    lambda: [Model({}, {}, 'no case')], modules=MODULES)
    head = 'def entry(x, y, TM_, st, ax):\n    E = [x, y]\n' \
        '    TM = list(TM_)\n'
    args = [x, y, t.sym('TM', 'list:num'), ext('ST'), ext('AX')]
    for line in PLOTS.strip().split('\n'):
        plain = 'Diagram' in line

        def ov():
            o = dict(link_contracts(ctx))
            o.update(axes_overrides())
            o.update(cone_overrides('FlatSpacetime' if plain else 'ST'))
            return o
        name = line.split('.')[1].split('(')[0]
        for two in SECOND:
            b = line % two
            for one in FIRST:
                if plain and 'dims' in one:
                    continue
                if two and not ctx.thorough and (
                        plain or 'Plotter' in line):
                    continue
                a_ = line % (', ' + one)
                independent(
                    ctx, '%s; %s' % (a_, b), ['causetplotting:' + name],
                    head + '    return %s\n' % b,
                    head + '    %s\n    return %s\n' % (a_, b), args,
                    models, ov, MODULES)
    # one plot function called twice
    for two in SECOND + (', timedepth=1.5', ', timedepth=-1.5, events='
                         '{"alpha": 0.5}', ', pastcones={"alpha": 0.5}, '
                         'conetimedepth=1.0'):
        def ov():
            o = dict(link_contracts(ctx))
            o.update(axes_overrides())
            o.update(cone_overrides('ST'))
            return o
        P = 'causetplotting.Plotter(E, ax, st%s)' % two
        for t1 in ('0.75', '[0.0, 1.0]'):
            independent(
                ctx, 'P = %s; P(%s); P(TM)' % (P, t1),
                ['causetplotting:Plotter'],
                head + '    return %s(TM)\n' % P,
                head + '    P = %s\n    P(%s)\n    return P(TM)\n' % (P, t1),
                args, models, ov, MODULES)
            independent(
                ctx, 'P = %s; R = P(TM); P(%s); R' % (P, t1),
                ['causetplotting:Plotter'],
                head + '    return %s(TM)\n' % P,
                head + '    P = %s\n    R = P(TM)\n    P(%s)\n    return R\n'
                % (P, t1), args, models, ov, MODULES)


def run(ctx):
    for part in (results, given, shapes, spacetimes, embedded, plots):
        part(ctx)
    return ctx.finish(NOTE, 170)


NOTE = 'Client fragments with two uses of the same container: the argument ' \
    'of a constructor or set operation and the instance, the result of a ' \
    'query and the instance, a copy and its original, two instances made ' \
    'with default arguments, two plots. Default arguments and class ' \
    'attributes are objects that live as long as the program. After one of ' \
    'them is changed in place everything that can be read from the other ' \
    'one is compared.'
