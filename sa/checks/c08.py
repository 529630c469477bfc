"""C08: queries do not modify causets, events or arguments."""
import ast
import itertools

import numpy as np

from .. import terms as t
from ..cases import SELF, S, L, cases
from ..evalr import State
from ..interp import Interp, Unk, Err, Obj, Model, Bag, Draws
from ..orders import orders, subsets, model, CAUSET
from ..ops import NO_RELATIONS
from ..roles import link_contracts
from ..shapes import Shape, NAMES, PARAMS, SYM
from .. import spacetime as sp

x, y, w = (t.sym(k, 'event') for k in 'xyw')
n, m = t.sym('n', 'int'), t.sym('m', 'int')
A2 = t.sym('B', 'set:event')

RULE = 'effect analysis: in the state after the query (also where it ends ' \
       'with an exception) every observation of every event and causet, and ' \
       'every container passed as argument, is what it was before'

EVENT = '''
x.hasBeenLinked() | str(x) | repr(x) | x < y | x <= y | x > y | x >= y
CausetEvent.isLink(x, y) | x.isPastLink(y) | x.isFutureLink(y)
x.isCausalTo(y) | x.isLinkedTo(y) | x.isSpacelikeTo(y)
CausetEvent.LinkCountOf(S) | x.Past | x.Future | x.Cone | x.PresentOrPast
x.PresentOrFuture | x.Spacelike(S) | x.PastCard | x.FutureCard | x.ConeCard
x.SpacelikeCard(S) | x.LinkPast | x.LinkFuture | x.LinkCone | x.LinkPastCard
x.LinkFutureCard | x.LinkConeCard | x.copy() | x.Rank(y) | x.Position
x.isEmbedded | x.Coordinates | x.CoordinatesDim'''

CAUSETQ = '''
list(C) | repr(C) | Causet.len(C) | C.Card | C.LinkCount() | C.LinkCount(S)
C.PastMatrix() | C.PastMatrix(L) | C.PastMatrix(L, int) | C.FutureMatrix()
C.FutureMatrix(L) | C.LinkPastMatrix() | C.LinkPastMatrix(L)
C.LinkFutureMatrix() | C.LinkFutureMatrix(L) | C.find(n) | list(C.findAny(n, m))
C.findAll(n, m) | C.__contains__(x)
C - S | C & S | C ^ S | S - C | S & C | S ^ C | C - L | C ^ L
C.difference(S) | C.intersection(S) | C.symmetric_difference(S) | C.union(S)
C.difference(L) | C.intersection(L) | C.symmetric_difference(L) | C.union(L)
C.isChain() | C.isChain(S) | C.isChain(L) | C.isPath() | C.isPath(S)
C.isPath(L) | C.isAntichain() | C.isAntichain(S) | C.isAntichain(L)
C.PastInf | C.FutureInf | C.PastInfCard | C.FutureInfCard
Causet.PastInfOf(S) | Causet.FutureInfOf(S) | Causet.PastInfCardOf(S)
Causet.FutureInfCardOf(S)
Causet.PastOf(S) | Causet.PastOf(S, includePresent=True)
Causet.PastOf(S, intersect=True) | Causet.PastOf(S, True, True)
Causet.FutureOf(S) | Causet.FutureOf(S, includePresent=True)
Causet.FutureOf(S, intersect=True) | Causet.FutureOf(S, True, True)
Causet.ConeOf(S) | Causet.ConeOf(S, includePresent=False)
Causet.ConeOf(S, intersect=True) | Causet.ConeOf(S, False, True)
C.SpacelikeTo(S) | Causet.Interval(x, y) | Causet.Interval(x, y, False)
Causet.IntervalCard(x, y) | Causet.IntervalCard(x, y, False)
Causet.PerimetralEvents(x, y) | Causet.PerimetralEventCount(x, y)
Causet.InternalEvents(x, y) | Causet.InternalEventCount(x, y)
C.CentralAntichain() | C.CentralAntichain(x)
Causet.Layers(S, -1) | Causet.Layers(S, 1) | Causet.Layers(S, -1, 2)
Causet.LayerNumbers(L) | Causet.LayerNumbers(L, True)
Causet.Ranks(S, -1) | Causet.Ranks(S, 1) | Causet.Ranks(S, -1, 2)
Causet.RankNumbers(L) | Causet.RankNumbers(L, True)
list(Causet.Paths(x, y)) | list(Causet.Paths(x, y, 'min'))
list(Causet.Paths(x, y, 'max')) | list(Causet.Paths(x, y, n))
list(Causet.Paths(x, y, [1, 2])) | C.SmallestIntervalCard(x, y)
C.SmallestIntervalCard(x, y, S) | C.SmallestIntervalCard(x, y, S, T)
C.SmallestIntervalCard(x, y, intersecting=T)
C.DistanceMatrix(L) | C.DistanceMatrix(L, 'intersection')
C.DistanceMatrix(L, recursive=False) | C.DistanceMatrix(L, 'union', False)
list(C.Antipaths(x, y, S)) | list(C.Antipaths(x, y, L))
list(C.Antipaths(x, y, L, D))
C.disjoint() | C.disjoint(S) | C.isDisjoint() | C.isDisjoint(S)
C.sortedByLabels() | C.sortedByLabels(S) | C.sortedByLabels(S, True)
C.sortedByCausality() | C.sortedByCausality(S) | C.sortedByCausality(S, True)
C.layered() | C.layered(S) | C.layered(S, True)
'''

# containers given to operations that create or change causets
BUILD = '''
CausetEvent(past=S) | CausetEvent(future=S) | CausetEvent(past=S, future=T)
CausetEvent(past=L, label=1) | CausetEvent(coordinates=K)
CausetEvent(position=K) | x.embed(K) | x.embed(K, True)
Causet(S) | Causet(L) | Causet.merge(S, T) | Causet.merge(S, T, True)
Causet.merge(L, T) | C.add(S) | C.add(L) | C.add(S, True) | C.discard(S)
C.discard(L) | C.discard(S, True) | Causet.FromPermutation(P)
Causet.FromPastMatrix(D) | Causet.FromFutureMatrix(D)
'''

SYMS = {'x': x, 'y': y, 'w': w, 'C': SELF, 'S': S, 'L': L, 'n': n, 'm': m,
        'T': t.sym('T', 'set:event'), 'D': t.sym('D', 'array'),
        'K': t.sym('K', 'list:num'), 'P': t.sym('P', 'list:int')}
CONTAINERS = ('S', 'L', 'T', 'D', 'K', 'P')
VIEWS = {'past': 'set(w.Past)', 'future': 'set(w.Future)',
         'label': 'w.Label', 'position': 'list(w.Position)',
         'embedded': 'w.isEmbedded', 'coordinates': 'list(w.Coordinates)',
         'events of the causet': 'set(C)'}


def exprs(text):
    for line in text.strip().split('\n'):
        # a single | between two operands without spaces would be ambiguous:
        # queries are separated by ' | ', unions are written out
        for q in line.split(' | '):
            q = q.strip()
            if q:
                yield q


UNIONS = ('C.__or__(S)', 'C.__ror__(S)', 'C.__or__(L)')


def names(expr):
    return sorted({k.id for k in ast.walk(ast.parse(expr, mode='eval'))
                   if isinstance(k, ast.Name) and k.id in SYMS})


OPS = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__',
       ast.GtE: '__ge__', ast.Sub: '__sub__', ast.BitOr: '__or__',
       ast.BitAnd: '__and__', ast.BitXor: '__xor__'}


def anchor(ctx, expr):
    e = ast.parse(expr, mode='eval').body
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id == 'list':
        e = e.args[0]
    if isinstance(e, ast.Call):
        e = e.func
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        c = {'x': 'CausetEvent', 'C': 'Causet'}.get(e.value.id, e.value.id)
        return ['%s.%s' % (c, e.attr)]
    if isinstance(e, ast.Compare):
        return ['CausetEvent.' + OPS[type(e.ops[0])]]
    if isinstance(e, ast.BinOp):
        o = OPS[type(e.op)]
        return ['Causet.' + (o if names(expr)[0] == 'C' and expr[0] == 'C'
                             else '__r' + o[2:])]
    if isinstance(e, ast.Name) and e.id in ('str', 'repr'):
        arg = ast.parse(expr, mode='eval').body.args[0].id
        return [{'x': 'CausetEvent', 'C': 'Causet'}[arg] + '.__%s__' % e.id]
    if isinstance(e, ast.Name) and e.id in ('Causet', 'CausetEvent'):
        return [e.id + '.__init__']
    if isinstance(e, ast.Name) and e.id == 'C':
        return ['Causet.__iter__']
    return []


class Before:
    """Observations of the untouched state."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.funcs = {k: ctx.prog.client(
            'def entry(w, C):\n    return %s\n' % v)
            for k, v in VIEWS.items()}
        self.ev = ctx.evaluator()
        self.memo = {}
        self.first = {k: self.see(k, State()) for k in VIEWS}

    def see(self, view, st):
        # the views read nothing but the fields of the heap
        key = (view, frozenset((k, m) for k, m in st.heap.items()
                               if m.op != 'map0'))
        if key not in self.memo:
            self.memo[key] = self.ev.run(self.funcs[view], [w, SELF], {},
                                         st=st.copy()).outcome
        return self.memo[key]


def states(res, ev):
    """(condition, state, how) at every end of the call"""
    yield t.TRUE, res.state, 'after it'
    for e in res.raises:
        yield e.cond, e.state, 'after its exception'


def unchanged(ctx, before, expr, views=tuple(VIEWS), only=None, nmax=3,
              overrides=None):
    """No observation changes, no container argument changes."""
    def fn():
        ev = ctx.evaluator(overrides)
        st = State()
        args, refs = [], {}
        for k in names(expr):
            v = SYMS[k]
            if k in CONTAINERS:
                v = refs[k] = ev.new_ref(st, v, v.sort.split(':')[0])
            args.append(v)
        f = ctx.prog.client('def entry(%s):\n    return %s\n' % (
            ', '.join(names(expr)), expr))
        res = ev.run(f, args, {}, st=st)
        ctx.functions.update(q for q in ev.inlined if q != 'entry')
        for cond, s, how in states(res, ev):
            s.heap = {k: ev.resolve(v, s) for k, v in s.heap.items()}
            for k in views:
                v = before.see(k, s)
                yield from compare(ctx, before.first[k], v, cond, expr, nmax,
                                   '%s %s' % (k, how))
            for k, r in refs.items():
                v = ev.resolve(ev.deref(r, s), s)
                yield from compare(ctx, SYMS[k], v, cond, expr, nmax,
                                   'argument %s %s' % (k, how))
        # changed although the analysis does not see where it lives
        for base, cond, node in ev.arg_mutations:
            if base.op == 'sym' and base in args:
                yield 'bad', '%s: changes its argument %s in place (line ' \
                    '%d)' % (expr, base.args[0], node.lineno)
    ctx.obligation(expr, RULE, anchor(ctx, expr), fn)


def compare(ctx, v0, v1, cond, expr, nmax, what):
    if v0 is v1:
        yield 'ok', None
        return
    for mod in cases_of(ctx, expr, nmax):
        I = Interp(mod)
        try:
            if cond is not t.TRUE and not I.cond(cond, {}):
                continue
            a, b = Interp(mod).outcome(v0), Interp(mod).outcome(v1)
        except Unk as e:
            yield 'unk', 'value not known: %s: %s' % (what, e)
            continue
        if same_value(a, b):
            yield 'ok', None
        else:
            yield 'bad', 'case: %s -- %s: %s: %s instead of %s' % (
                mod.desc, expr, what, b, a)
            return


def same_value(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    return a == b


MATRICES = (((0., 1.), (1., 0.)), ((0., 2., 1.), (2., 0., 1.),
                                   (1., 1., 0.)))


def cases_of(ctx, expr, nmax):
    pool = {}
    for o in orders(nmax, 1):
        lists_ = [l for k in range(o.n + 1)
                  for l in itertools.permutations(o.E, k)]
        pool = {'x': o.E, 'y': o.E, 'w': o.E, 'S': list(subsets(o.E)),
                'T': list(subsets(o.E)), 'L': lists_, 'n': (1, 2),
                'm': (1, 3), 'D': [np.array(d) for d in MATRICES],
                'K': ((0.5, 1.5),), 'P': ((2, 1, 3), (1,))}
        ks = [k for k in sorted(set(names(expr)) | {'w'}) if k != 'C']
        cs = [o.all] + [c for c in subsets(o.E) if c != o.all and
                        'C' in names(expr)]
        for C in cs:
            for ch in itertools.product(*[pool[k] for k in ks]):
                yield model(o, ctx.roles, dict(zip(ks, ch)), C=C)


def run(ctx):
    before = Before(ctx)
    for q in itertools.chain(exprs(EVENT), exprs(CAUSETQ), UNIONS):
        unchanged(ctx, before, q)
    for q in exprs(BUILD):
        unchanged(ctx, before, q, views=())
    shapes(ctx)
    spacetimes(ctx)
    embedded(ctx)
    plotting(ctx)
    return ctx.finish(NOTE, 190)


# ------------------------------------------- objects with parameters
RULE2 = 'value graph: everything that can be read from the object, and ' \
        'every container given to it, is the same after the query as before'


def before_after(ctx, name, quals, src, args, models, overrides=None,
                 modules=None):
    """The fragment returns (before, after)."""
    def build():
        ev = ctx.evaluator(overrides)
        if modules:
            ev.modules = modules
        return ctx.client(src, args, ev=ev)

    def cmp(got, want):
        if isinstance(got, Err):
            raise Unk('the query raises %r' % (got,))
        if not (isinstance(got, tuple) and len(got) == 2):
            raise Unk('%r' % (got,))
        return close(got[0], got[1])
    ctx.decide(name, RULE2, quals, build, models, lambda m: None, cmp=cmp)


def close(a, b):
    if isinstance(a, Bag):
        a = tuple(a.items)
    if isinstance(b, Bag):
        b = tuple(b.items)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            return np.array_equal(np.asarray(a, dtype=float),
                                  np.asarray(b, dtype=float))
        except (TypeError, ValueError):
            return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(close, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)
    return type(a) == type(b) and a == b or \
        isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b


SHAPEQ = {'str(S)': '__str__', 'repr(S)': '__repr__', 'S.Dim': 'Dim',
          'S.Name': 'Name', 'S.Center': 'Center', 'S.Volume': 'Volume',
          'S.MaxEdgeHalf(D)': 'MaxEdgeHalf', 'S.Limits(D[0])': 'Limits',
          'S.plot(D, ax)': 'plot', 'S.plot(D, ax, color="red")': 'plot',
          'S.plot(D)': 'plot'}


def shapes(ctx):
    for name in NAMES:
        for d in (2, 3) + ((4,) if ctx.thorough else ()):
            s = Shape(name, d, PARAMS[name] + ('center',))
            view = '(S.Dim, S.Name, list(S.Center)%s)' % ''.join(
                ', list(S.Parameter(%r))' % k if k == 'edges' else
                ', float(S.Parameter(%r))' % k for k in PARAMS[name])
            cont = [k for k in ('c', 'es') if k in s.syms]
            for q, meth in SHAPEQ.items():
                for D in ([1, 0], [0, 1, 2], [1, 2]):
                    if max(D) >= d or 'D' not in q and D != [1, 0]:
                        continue
                    if 'S.plot' not in q and len(D) == 3 and name != 'cuboid':
                        continue
                    use = [k + '_' if k in cont else k for k in s.syms]
                    src = 'def entry(%s, ax):\n' % ', '.join(s.syms)
                    for k in cont:
                        src += '    %s_ = list(%s)\n' % (k, k)
                    src += '    D = %s\n' % D
                    ex = s.expr()
                    for k, u in zip(s.syms, use):
                        ex = ex.replace('=%s,' % k, '=%s,' % u).replace(
                            '=%s)' % k, '=%s)' % u)
                    both = '%s, D == %s%s' % (view, D, ''.join(
                        ', list(%s)' % u for u in use if u.endswith('_')))
                    src += '    S = %s\n    b = (%s, True%s)\n    %s\n' \
                        '    return b, (%s)\n' % (
                            ex, view, ''.join(', list(%s)' % k for k in cont),
                            q, both)
                    before_after(
                        ctx, '%s: %s, D = %s' % (s.desc(
                            {SYM_NAME[k]: SYM_NAME[k] for k in s.syms}),
                            q, D), ['CoordinateShape.' + meth], src,
                        [SYM[k] for k in s.syms] + [AX],
                        lambda s=s: (patch(m) for m in s.models(2)))


SYM_NAME = {k: k for k in SYM}
AX = t.sym('ax', 'any')


def patch(m):
    from ..shapes import patch_apps
    m.syms['ax'] = Obj('axes')
    return patch_apps(m)


KEYS = {'flat': ('isPeriodic',), 'dS': ('r_dS',), 'AdS': ('r_AdS',),
        'EF': ('r_S',), 'S': ('r_S',)}
STQ = {'str(T)': '__str__', 'repr(T)': '__repr__', 'T.Dim': 'Dim',
       'T.Name': 'Name', 'T.MetricName': 'MetricName',
       'T.DefaultShape()': 'DefaultShape', 'T.Causality()': 'Causality',
       'T.Causality()(p, q)': 'Causality', 'T.Causality()(q, p)': 'Causality'}
VALUES = {'P': 1.5, 'tup:P': (1.5, 0.0, 2.0), 'rho': 1.25}


def points(d):
    for k in range(3):
        yield (np.array([0.25, 0.5, 0.125, -0.25][:d]) * (k + 1) / 2,
               np.array([1.5, -0.25, 0.375, 0.5][:d]) * (2 - k / 2) / 2)


def st_models(c):
    for p, q in points(c.dim):
        syms = {'x': p, 'y': q, 'tt': 2.0, 'al': 0.25}
        for a in c.args:
            k = a.args[0]
            syms[k] = VALUES[k][:c.dim - 1] if k == 'tup:P' else VALUES[k]
        m = patch(Model(syms, {}, '%s, %s' % (c.name, syms)))
        yield m


def spacetimes(ctx):
    for c in sp.configs():
        args = [a.args[0].replace('tup:', '') for a in c.args]
        keys = KEYS[c.kind] + (('period',) if 'P' in args else ())
        view = '(T.Dim, T.Name, T.MetricName, T.Causality()(x, y)%s)' % \
            ''.join(', list(T.Parameter(%r))' % k if k == 'period' else
                    ', T.Parameter(%r)' % k for k in keys)
        head = 'def entry(x, y, tt, al, ax%s):\n    p = np.array(x)\n' \
            '    q = np.array(y)\n    T = %s\n' % (
                ''.join(', ' + k for k in args), c.expr)
        qs = dict(STQ)
        if c.dim >= 2 and c.kind != 'S' and c.kind != 'EF':
            for D in ([1, 0], [0, 1]) + (([1, 2], ) if c.dim > 2 else ()):
                for sign in ('1.0', '-1.0'):
                    qs['T.ConePlotter(D, K, %s, ax, %s, 4)(p, %stt)  # D = '
                       '%s' % (sign, 'fade' if D == [1, 0] else 'None',
                               '' if sign[0] == '1' else '-',
                               D)] = 'ConePlotter'
        for q, meth in qs.items():
            ex, _, D = q.partition('  # D = ')
            src = head + '    b = (%s, list(x), list(y), %s, {"alpha": 0.5, ' \
                '"color": "red"})\n' % (view, D or '[]')
            src += '    D = %s\n    K = {"alpha": 0.5, "color": "red"}\n' \
                '    def fade(r):\n        return al\n    try:\n        %s\n' \
                '    except NotImplementedError:\n        pass\n    return b, (%s, list(p), list(q), D, K)\n' % (
                    D or '[]', ex, view)
            cls = c.cls if ctx.prog.has_cls(c.cls) and meth in \
                ctx.prog.cls(c.cls).methods else 'Spacetime'
            before_after(ctx, '%s: %s' % (c.name, q), [cls + '.' + meth],
                         src, [t.sym('x', 'array'), t.sym('y', 'array'),
                               t.sym('tt', 'num'), t.sym('al', 'num'),
                               AX] + list(c.args), lambda c=c: st_models(c))


EMBQ = ('C.Shape', 'C.Spacetime', 'C.Dim', 'C.Density', 'C.LengthScale',
        'C.Card', 'repr(C)', 'list(C)', 'C.Intensity', 'C.Shape.Volume',
        'C.Spacetime.Causality()(x, y)', 'C.Shape.Limits(0)',
        'C.Shape.plot([1, 0], ax)')
EMBVIEW = '(C.Dim, C.Card, C.Shape.Dim, C.Shape.Name, list(C.Shape.Center), ' \
    'float(C.Shape.Parameter("radius")), C.Spacetime.Name, ' \
    'C.Spacetime.Dim, [(e.Label, list(e.Coordinates)) for e in C]%s)'


def embedded(ctx):
    X = t.sym('X', 'list:list:num')

    def models():
        for pts in (((0.0, 0.0), (0.5, 0.25)), ((0.25, -0.5),), ()):
            mod = Model({'X': pts, 'r': 1.5, 'x': np.array([0.0, 0.1]),
                         'y': np.array([1.0, 0.2]), 'lam': 2.5}, {},
                        'coordinates %s' % (pts,))
            mod.draws = Draws(len(pts))
            yield patch(mod)
    args = [X, t.sym('r', 'num'), t.sym('x', 'array'), t.sym('y', 'array'),
            t.sym('lam', 'num'), AX]
    head = 'def entry(X, r, x, y, lam, ax):\n    K = [list(c) for c in X]\n' \
        '    S = CoordinateShape(2, %r, radius=r)\n    C = %s\n'
    for name in ('diamond', 'cylinder'):
        for ctor, lam in (
                ('EmbeddedCauset(shape=S, coordinates=K)', ''),
                ('EmbeddedCauset(deSitterSpacetime(2), S, K)', ''),
                ('SprinkledCauset(dim=2, shape=S)', ', C.Intensity')):
            for q in EMBQ:
                if 'Intensity' in q and not lam:
                    continue
                v = EMBVIEW % lam
                h = head % (name, ctor)
                if lam:
                    h += '    C.create(K)\n'
                src = h + '    b = (%s, [list(c) for c in X])\n    %s\n' \
                    '    return b, (%s, K)\n' % (v, q, v)
                meth = q.split('C.')[-1].split('.')[0].split('(')[0] \
                    if 'C.' in q else {'r': '__repr__', 'l': '__iter__'}[q[0]]
                cls = 'SprinkledCauset' if lam else 'EmbeddedCauset'
                qual = next((c + '.' + meth for c in (
                    cls, 'EmbeddedCauset', 'Causet')
                    if meth in ctx.prog.cls(c).methods), cls + '.__init__')
                before_after(ctx, '%s %s: %s' % (name, ctor, q), [qual], src,
                             args, models, overrides=NO_RELATIONS)


PLOTS = '''
causetplotting.plot(E, ax, st, dims=D, %s)
causetplotting.plot(E, ax, None, dims=D, %s)
causetplotting.Plotter(E, ax, st, dims=D, %s)(TM)
causetplotting.Plotter(x, ax, st, dims=D, %s)(TM)
causetplotting.Plotter(E, ax, st, dims=D, timedepth=1.5, conetimedepth=1.0, %s)(TM)
causetplotting.plotDiagram(E, [], ax, dims=D, %s)
causetplotting.plotDiagram(E, plotAxes=ax, dims=D, %s)
causetplotting.plotDiagram(E, P, ax, dims=D, %s)
'''
OPTIONS = {'pastcones': {'alpha': 0.5, 'facecolor': 'cs:pink'},
           'futurecones': {'alpha': 0.25, 'edgecolor': 'cs:green'},
           'links': {'color': 'cs:lime', 'marker': ''},
           'events': {'markerfacecolor': 'cs:red', 'alpha': 0.75},
           'labels': {'color': 'cs:core'},
           'axislim': {'xlim': (-1.0, 1.0), 'ylim': (0.0, 2.0)}}


def plotting(ctx):
    """The containers given as options are left alone, and the events too."""
    from .c22 import axes_overrides, cone_overrides, MODULES, field_name, ext
    fc = field_name(ctx, 'Coordinates', '_coordinates')
    fp = field_name(ctx, 'Position', '_position')

    def models():
        i = 0
        for o in orders(2, 2):
            for p, q in itertools.permutations(o.E):
                for tm in ((0.25,), (0.0, 1.0)):
                    i += 1
                    mod = model(o, ctx.roles, {'x': p, 'y': q, 'TM': tm,
                                               'P': (2, 1)}, C=o.all)
                    co = {e: np.array([e.n * 0.75, 0.25 - e.n * 0.5, 0.0])
                          for e in o.E}
                    mod.maps['has:' + fc] = lambda e: True
                    mod.maps['has:' + fp] = lambda e: True
                    mod.maps[fc] = lambda e, co=co: co[e]
                    mod.maps[fp] = lambda e: (e.n * 0.5, 0.25)
                    mod.maps['axes:log'] = lambda x: ()
                    mod.apps['drawn'] = lambda *z: tuple(z)
                    mod.apps['star'] = lambda *z: tuple(itertools.chain(*z))
                    yield mod
    for line in PLOTS.strip().split('\n'):
        plain = 'Diagram' in line or 'None' in line
        for k in OPTIONS:
            ov = dict(link_contracts(ctx))
            ov.update(axes_overrides())
            ov.update(cone_overrides('FlatSpacetime' if plain else 'ST'))
            expr = line % ('%s=O' % k)
            v = '(list(D), dict(O), list(TM), len(E), E[0] is x, E[1] is ' \
                'y, list(x.Coordinates), list(P)%s, ' \
                'set(x.Past), set(y.Past), ' \
                'x.Label, y.Label)' % (
                    '' if ', P,' in line else ', list(x.Position)')
            before_after(
                ctx, expr.replace('=O', '={..}'),
                ['causetplotting:' + line.split('.')[1].split('(')[0]],
                'def entry(x, y, TM_, P_, st, ax):\n    D = [1, 0]\n'
                '    E = [x, y]\n    TM = list(TM_)\n    P = list(P_)\n'
                '    O = %r\n    b = %s\n    %s\n    return b, %s\n' % (
                    OPTIONS[k], v, expr, v),
                [x, y, t.sym('TM', 'list:num'), t.sym('P', 'list:int'),
                 ext('ST'), ext('AX')], models, overrides=ov,
                modules=MODULES)


NOTE = 'Every query of an event and of a causet is one client expression; ' \
    'its effects on the heap are taken at the normal end and at every ' \
    'exception, and the state is observed through the public views of a ' \
    'generic event. Containers given as arguments are references whose ' \
    'content is compared as well. Shapes, spacetimes, embedded causets and ' \
    'plots: everything readable before and after the query.'
