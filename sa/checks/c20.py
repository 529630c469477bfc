"""C20: embedding of events and causets."""
import itertools
import random

import numpy as np

from ..core import Skip
from ..interp import Err, Interp, Unk, Model, Draws, Obj, Bag
from ..ops import NO_RELATIONS
from ..shapes import NAMES
from .. import spacetime as sp
from .. import terms as t

A, B = t.sym('A', 'list:num'), t.sym('B', 'list:num')
X = t.sym('X', 'list:list:num')
NOLINK = {k: v for k, v in NO_RELATIONS.items() if 'relate' not in k}


def run(ctx):
    typestate(ctx)
    position(ctx)
    names(ctx)
    dims(ctx)
    spacetimes(ctx)
    relations(ctx)
    relabel(ctx)
    return ctx.finish(NOTE, 60)


# ---------------------------------------------------------- event typestate
OPS = {
    'embed': 'e.embed(A)', 'embed again': 'e.embed(B, reembed=True)',
    'embed, no': 'e.embed(B, False)', 'disembed': 'e.disembed()',
}
STARTS = {'CausetEvent()': None, 'CausetEvent(coordinates=A)': 'A',
          'CausetEvent(label=1, coordinates=B)': 'B',
          "CausetEvent(label='x', position=[2.0, 3.0])": None,
          'CausetEvent(coordinates=A).copy()': None,
          'CausetEvent(label=3).copy()': None}


def automaton(start, seq):
    """(coordinates or None, what every step raises)"""
    c, out = STARTS[start], []
    for s in seq:
        if s == 'disembed':
            if c is None:
                return None          # nothing said
            c = None
            out.append('done')
        elif s == 'embed again':
            c = 'B'
            out.append('done')
        elif c is not None:
            out.append('error')
        else:
            c = 'A' if s == 'embed' else 'B'
            out.append('done')
    return c, out


def typestate(ctx):
    top = 4 if ctx.thorough else 3
    for start in STARTS:
        for n in range(top + 1):
            for seq in itertools.product(OPS, repeat=n):
                if automaton(start, seq) is None:
                    continue
                if n == top and not ctx.thorough and \
                        start != 'CausetEvent()':
                    continue
                one(ctx, start, seq)


def one(ctx, start, seq):
    src = 'def entry(A, B):\n    e = %s\n    R = []\n' % start
    for s in seq:
        src += '    try:\n        %s\n        R.append("done")\n' \
            '    except AttributeError:\n        R.append("error")\n' % OPS[s]
    src += '    try:\n        c = e.Coordinates\n    except ' \
        'AttributeError:\n        c = None\n' \
        '    return R, e.isEmbedded, e.CoordinatesDim, c\n'

    def models():
        for a, b in (((0.5, 1.5), (2.5,)), ((3.0, 1.0, 2.0), (0.25, 4.0)),
                     ((1.0,), (7.0, 8.0, 9.0, 6.0))):
            m = Model({'A': a, 'B': b}, {}, 'A = %s, B = %s' % (a, b))
            m.v = {'A': a, 'B': b, None: None}
            yield m

    def want(m):
        c, out = automaton(start, seq)
        x = m.v[c]
        return (tuple(out), x is not None, len(x) if x else 0, x)
    ctx.decide(
        '; '.join((start,) + seq),
        'an event is embedded exactly if it was given coordinates and not '
        'disembedded since; embedding it again raises an AttributeError '
        'unless requested; reading the coordinates of an event that is not '
        'embedded raises an AttributeError',
        ['CausetEvent.embed', 'CausetEvent.disembed',
         'CausetEvent.Coordinates', 'CausetEvent.isEmbedded'],
        lambda: ctx.client(src, [A, B]), models, want)


def position(ctx):
    rule = 'the position has exactly two components; anything else is ' \
        'rejected with a ValueError and leaves the position'
    lens = ((), (1.0,), (1.5, -2.0), (1.0, 2.0, 3.0), (0.0,) * 4)

    def models():
        for a in lens:
            yield Model({'A': a}, {}, 'A = %s' % (a,))

    def two(m):
        a = m.syms['A']
        return a if len(a) == 2 else Err('ValueError')

    def keep(m):
        a = m.syms['A']
        return a if len(a) == 2 else (4.0, 5.0)
    q = ['CausetEvent.Position']
    for name, body, want in (
            ('assignment', 'e = CausetEvent()\n    e.Position = A\n'
             '    return e.Position', two),
            ('constructor', 'e = CausetEvent(position=A)\n'
             '    return e.Position', two),
            ('rejected assignment', 'e = CausetEvent(position=[4.0, 5.0])\n'
             '    try:\n        e.Position = A\n    except ValueError:\n'
             '        pass\n    return e.Position', keep),
            ('default', 'return CausetEvent(coordinates=A).Position',
             lambda m: (0.0, 0.0))):
        ctx.decide('position, ' + name, rule, q,
                   lambda: ctx.client('def entry(A):\n    %s\n' % body, [A]),
                   models, want)


# ----------------------------------------------------------- spacetime names
KINDS = {'flat': ('flat', 'Minkowski', 'bicone', 1, 9),
         'Minkowski': ('flat', 'Minkowski', 'bicone', 1, 9),
         'dS': ('de Sitter', 'static', 'cylinder', 2, 9),
         'de Sitter': ('de Sitter', 'static', 'cylinder', 2, 9),
         'AdS': ('Anti-de Sitter', 'static', 'cylinder', 2, 9),
         'Anti-de Sitter': ('Anti-de Sitter', 'static', 'cylinder', 2, 9),
         'black hole': ('black hole', 'Eddington-Finkelstein', 'cylinder', 2,
                        2),
         'Schwarzschild': ('black hole', 'Eddington-Finkelstein', 'cylinder',
                           2, 2)}
ATTR = 'return C.Spacetime.Name, C.Spacetime.MetricName, C.Shape.Name, ' \
    'C.Dim, C.Spacetime.Dim, C.Card'
ERR = Err('ValueError')


def none():
    m = Model({'rng': Obj('rng', 'rng')}, {}, 'any')
    m.draws = Draws(1)
    return [m]


def names(ctx):
    rule = 'documented spacetime names select the documented spacetime in ' \
        'the given dimension (2 by default) with its default shape; other ' \
        'names and dimensions that the spacetime does not have raise a ' \
        'ValueError'
    q = ['EmbeddedCauset.__init__']

    def one(expr, want):
        ctx.decide(expr, rule, q, lambda: ctx.client(
            'def entry():\n    C = %s\n    %s\n' % (expr, ATTR), [],
            overrides=NO_RELATIONS), none(), lambda m: want)
    for nm, (name, metric, shape, lo, hi) in KINDS.items():
        for d in (None, 1, 2, 3, 4):
            k = 2 if d is None else d
            w = (name, metric, shape, k, k, 0) if lo <= k <= hi else ERR
            dd = '' if d is None else ', dim=%d' % d
            one('EmbeddedCauset(%r%s)' % (nm, dd), w)
        if lo <= 3 <= hi:
            one('EmbeddedCauset(spacetime=%r, shape=CoordinateShape(3, '
                "'ball'))" % nm, (name, metric, 'ball', 3, 3, 0))
            one('EmbeddedCauset(%r, coordinates=[[0.1, 0.2, 0.3], '
                '[0.2, 0.1, 0.3]])' % nm, (name, metric, shape, 3, 3, 2))
        one('SprinkledCauset(spacetime=%s)' % CLASS[nm].format(2),
            (name, metric, shape, 2, 2, 0))
    for nm in ('', 'Flat', 'minkowski', 'ds', 'DS', 'blackhole', 'anti',
               'Schwarzschild metric'):
        one('EmbeddedCauset(spacetime=%r)' % nm, ERR)
    for d in (None, 1, 2, 3, 4):
        k = 2 if d is None else d
        dd = '' if d is None else 'dim=%d' % d
        one('EmbeddedCauset(%s)' % dd, ('flat', 'Minkowski', 'bicone', k, k,
                                        0))
        one('SprinkledCauset(%s)' % dd, ('flat', 'Minkowski', 'bicone', k, k,
                                         0))
        for sh in NAMES:
            one('EmbeddedCauset(shape=%r%s)' % (sh, dd and ', ' + dd),
                ('flat', 'Minkowski', 'bicone' if sh == 'diamond' else sh,
                 k, k, 0))
    for d in (0, -1, -5):
        one('EmbeddedCauset(dim=%d)' % d, ('flat', 'Minkowski', 'bicone', 2,
                                           2, 0))
    one("EmbeddedCauset(shape='dodecahedron')", ERR)
    one('EmbeddedCauset(FlatSpacetime(3, period=1.5))',
        ('flat', 'Minkowski', 'cube', 3, 3, 0))
    one("EmbeddedCauset(BlackHoleSpacetime(2, metric='Schwarzschild'))",
        ('black hole', 'Schwarzschild', 'cylinder', 2, 2, 0))


CLASS = {'flat': 'FlatSpacetime({})', 'Minkowski': 'FlatSpacetime({})',
         'dS': 'deSitterSpacetime({})', 'de Sitter': 'deSitterSpacetime({})',
         'AdS': 'AntideSitterSpacetime({})',
         'Anti-de Sitter': 'AntideSitterSpacetime({})',
         'black hole': 'BlackHoleSpacetime({})',
         'Schwarzschild': 'BlackHoleSpacetime({})'}


def dims(ctx):
    """all combinations of the four dimensions"""
    rule = 'the arguments are accepted exactly if all given dimensions ' \
        'agree; otherwise a ValueError is raised'

    def one(st, sh, d, rows, how):
        parts, given = [], []
        if st:
            parts.append('spacetime=%s' % CLASS['dS' if st % 2 else 'flat']
                         .format(st))
            given.append(st)
        if sh:
            parts.append("shape=CoordinateShape(%d, 'cube')" % sh)
            given.append(sh)
        if d > 0:
            parts.append('dim=%d' % d)
            given.append(d)
        if rows is not None:
            parts.append('coordinates=' + how)
            given += list(rows)
        if not given:
            return
        ok = len(set(given)) == 1

        def models():
            rng = random.Random(1)
            m = Model({}, {}, 'rows with %s components' % (rows,))
            m.syms['X'] = tuple(tuple(rng.randint(-9, 9) / 16.0
                                      for _ in range(k))
                                for k in rows or ())
            return [m]
        ctx.decide(
            'EmbeddedCauset(%s), rows %s' % (', '.join(parts), rows), rule,
            ['EmbeddedCauset.__init__'], lambda: ctx.client(
                'def entry(X):\n    C = EmbeddedCauset(%s)\n    return '
                'C.Spacetime.Dim, C.Shape.Dim, C.Dim, C.Card, sorted(len('
                'e.Coordinates) for e in C)\n' % ', '.join(parts), [X],
                overrides=NO_RELATIONS), models,
            lambda m: (given[0],) * 3 + (len(rows or ()),
                                         tuple(rows or ())) if ok else ERR)
    rowsets = (None, (2,), (3, 3), (2, 2, 3), (3, 2))
    for st in (0, 2, 3):
        for sh in (0, 2, 3):
            for d in (-1, 2, 3):
                for rows in rowsets:
                    one(st, sh, d, rows, 'X')
                    if rows and len(set(rows)) == 1:
                        one(st, sh, d, rows, 'np.array(X)')
                    if rows and len(set(rows)) == 1 and ctx.thorough:
                        one(st, sh, d, rows, '[np.array(c) for c in X]')
    for st in (2, 3):
        # one row only instead of a matrix
        ctx.decide('EmbeddedCauset(dim=%d, coordinates=np.array(A))' % st,
                   rule, ['EmbeddedCauset.__init__'], lambda: ctx.client(
                       'def entry(A):\n    C = EmbeddedCauset(dim=%d, '
                       'coordinates=np.array(A))\n    return C.Card\n' % st,
                       [A]), [Model({'A': (1.0, 2.0)}, {}, 'A of 2 numbers'),
                              Model({'A': (1.0, 2.0, 3.0)}, {},
                                    'A of 3 numbers')], lambda m: ERR)


# ---------------------------------------------------------- spacetimes
def spacetimes(ctx):
    rule = 'spacetimes keep their parameters and reject dimensions and ' \
        'radii out of range and unknown metrics with a ValueError'

    def one(expr, cls, want, ask):
        ctx.decide(expr, rule, [cls + '.__init__'], lambda: ctx.client(
            'def entry():\n    M = %s\n    return %s\n' % (expr, ask), []),
            none(), lambda m: want)
    for cls, key, dflt, lo, hi in (
            ('deSitterSpacetime', 'r_dS', 1.0, 2, 9),
            ('AntideSitterSpacetime', 'r_AdS', 0.5, 2, 9),
            ('BlackHoleSpacetime', 'r_S', 0.5, 2, 2)):
        for d in (-1, 0, 1, 2, 3, 4):
            ok = lo <= d <= hi
            ask = 'M.Dim, M.Parameter(%r), M.DefaultShape().Dim' % key
            one('%s(%d)' % (cls, d), cls, (d, dflt, d) if ok else ERR, ask)
            for r in (-1.0, 0.0, 0.25, 3.0):
                one('%s(%d, %s)' % (cls, d, r), cls,
                    (d, r, d) if ok and r > 0.0 else ERR, ask)
                one('%s(%d, %s=%s)' % (cls, d, key, r), cls,
                    (d, r, d) if ok and r > 0.0 else ERR, ask)
    for m in ('Schwarzschild', 'Eddington-Finkelstein', 'Kerr', ''):
        one('BlackHoleSpacetime(2, 1.5, %r)' % m, 'BlackHoleSpacetime',
            m if m[:1] in ('S', 'E') else ERR, 'M.MetricName')
    for d in (-2, 0, 1, 2, 3, 4):
        one('FlatSpacetime(%d)' % d, 'FlatSpacetime',
            (d, False, d, 'bicone') if d >= 1 else ERR,
            "M.Dim, M.Parameter('isPeriodic'), M.DefaultShape().Dim, "
            "M.DefaultShape().Name")
        for per in ((), (1.0,), (1.0, 0.0), (0.0, 0.0), (0.0, 2.0, 3.0)):
            ok = d >= 1 and len(per) == d - 1
            isp = any(p > 0 for p in per)
            ctx.decide(
                'FlatSpacetime(%d, %r)' % (d, per), rule,
                ['FlatSpacetime.__init__'], lambda: ctx.client(
                    'def entry(P):\n    C = EmbeddedCauset(FlatSpacetime(%d, '
                    "P))\n    M = C.Spacetime\n    return M.Dim, "
                    "M.Parameter('isPeriodic'), C.Shape.Name, C.Dim\n" % d,
                    [sp.PT]), [Model({'tup:P': per}, {}, 'P = %s' % (per,))],
                lambda m: (d, isp, 'cube' if isp else 'bicone', d) if ok
                else ERR)


# ----------------------------------------------- relations by the spacetime
def relations(ctx):
    """events of an embedded causet are related by its spacetime"""
    rule = 'two events of an embedded causet are related exactly as the ' \
        'causality of its spacetime answers for their coordinates'
    CF = [
        ('flat', "EmbeddedCauset('flat', dim=%d, coordinates=X)", (2, 3, 4),
         'flat', None),
        ('by default', 'EmbeddedCauset(coordinates=X)', (1, 2, 3), 'flat',
         None),
        ('periodic', 'EmbeddedCauset(FlatSpacetime(%d, period=0.75), '
         'coordinates=X)', (2, 3), 'flat', 0.75),
        ('de Sitter', "EmbeddedCauset('dS', coordinates=X)", (2, 3), 'dS',
         1.0),
        ('anti-de Sitter', "EmbeddedCauset('Anti-de Sitter', "
         "coordinates=X)", (2, 3), 'AdS', 0.5),
        ('black hole', "EmbeddedCauset('black hole', coordinates=X)", (2,),
         'EF', 0.5),
        ('Schwarzschild metric', "EmbeddedCauset(BlackHoleSpacetime(2, "
         "metric='Schwarzschild'), coordinates=X)", (2,), 'S', 0.5),
        ('created later', "C0", (2, 3), 'flat', None),
        ('sprinkled class', "C1", (2,), 'dS', 1.0),
        ('embedded again', "C2", (2, 3), 'flat', None),
        ('related before', "C3", (2,), 'flat', None),
    ]
    for name, expr, ds, kind, par in CF:
        for d in ds:
            e = expr % d if '%d' in expr else expr
            if e == 'C0':
                body = "C = EmbeddedCauset(shape='cube', dim=%d)\n" \
                    '    C.create(X)' % d
            elif e == 'C1':
                body = 'C = SprinkledCauset(spacetime=deSitterSpacetime(%d))' \
                    '\n    C.create(X)' % d
            elif e == 'C2':
                body = 'C = EmbeddedCauset(coordinates=X)\n    for e in C:' \
                    '\n        e.embed([-u for u in e.Coordinates], True)' \
                    '\n    C.relate()'
            elif e == 'C3':
                body = 'E = []\n    for x in X:\n        E.append(' \
                    'CausetEvent(past=E, coordinates=x))\n    ' \
                    'C = EmbeddedCauset(dim=%d)\n    C.add(E)\n    ' \
                    'C.relate()' % d
            else:
                body = 'C = ' + e
            src = 'def entry(X):\n    %s\n    return [(a.Coordinates, [' \
                'b.Coordinates for b in a.Past], [b.Coordinates for b in ' \
                'a.Future]) for a in C]\n' % body
            sign = -1.0 if e == 'C2' else 1.0

            def fn():
                r = ctx.client(src, [X], overrides=NOLINK)
                rng = random.Random(d)
                for k in range(60 if ctx.thorough else 25):
                    w = 0.9 if kind in ('EF', 'S') else 0.5
                    x = tuple((rng.uniform(-1, 1),) + tuple(
                        rng.uniform(-w, w) for _ in range(d - 1))
                        for _ in range(4))
                    m = Model({'X': x}, {}, 'X = %s' % (x,))
                    m.draws = Draws(1)
                    x = [tuple(sign * u for u in a) for a in x]
                    try:
                        want = {(a, b) for a in x for b in x if a != b
                                and before(kind, d, a, b, par)}
                        want = want, want
                    except Skip:
                        continue
                    try:
                        got = pairs(Interp(m).outcome(r.outcome))
                    except Unk as u:
                        yield 'unk', 'value not known: %s' % u
                        continue
                    if got == want:
                        yield 'ok', None
                    else:
                        yield 'bad', 'case: %s -- related pairs %s, ' \
                            'required %s' % (m.desc, fmt(got), fmt(want))
            ctx.obligation('relations, %s, %dD' % (name, d), rule,
                           ['EmbeddedCauset.relate'], fn)


def fmt(p):
    return 'by past %s, by future %s' % tuple(map(sorted, p)) \
        if isinstance(p, tuple) else p


def pairs(v):
    if isinstance(v, Err):
        return str(v)
    out, fut = set(), set()

    def lst(z):
        return z.items if isinstance(z, Bag) else z

    def crd(z):
        return tuple(map(float, lst(z)))
    for row in lst(v):
        c, past, future = lst(row)
        for b in lst(past):
            out.add((crd(b), crd(c)))
        for b in lst(future):
            fut.add((crd(c), crd(b)))
    return out, fut


def before(kind, d, x, y, par):
    """x is before y"""
    class C:
        pass
    cfg, m = C(), C()
    cfg.kind, cfg.dim = kind, d
    m.px, m.py_, m.light = x, y, False
    m.par = (par,) * (d - 1) if kind == 'flat' and par else par
    w = sp.want(cfg, m)
    return w[0]


# ----------------------------------------------------------------- relabel
def relabel(ctx):
    rule = 'relabelling numbers the events from 1 in ascending (or ' \
        'descending) order of the chosen coordinate'
    D = t.sym('d', 'int')
    for how, args, dim, desc in (
            ('default', '', 0, False), ('dimension', 'd', None, False),
            ('descending', 'd, True', None, True),
            ('descending by keyword', 'descending=True', 0, True)):
        src = 'def entry(X, d):\n    C = EmbeddedCauset(coordinates=X)\n' \
            '    C.relabel(%s)\n    return [(e.Coordinates, e.Label) for ' \
            'e in C]\n' % args

        def models():
            rng = random.Random(3)
            for n in (1, 2, 3, 4):
                for d in (0, 1, 2):
                    for _ in range(3):
                        cols = [rng.sample(range(-9, 9), n)
                                for _ in range(3)]
                        x = tuple(tuple(c / 4.0 for c in row)
                                  for row in zip(*cols))
                        m = Model({'X': x, 'd': d}, {}, 'X = %s, d = %d' % (
                            x, d))
                        m.x, m.d = x, d
                        yield m

        def want(m):
            k = m.d if dim is None else dim
            s = sorted(m.x, key=lambda c: c[k], reverse=desc)
            return {c: i + 1 for i, c in enumerate(s)}

        def post(v):
            if isinstance(v, Err):
                return v
            v = v.items if isinstance(v, Bag) else v
            out = {}
            for row in v:
                c, l = row.items if isinstance(row, Bag) else row
                out[tuple(map(float, c))] = int(l)
            return out
        ctx.decide('relabel, ' + how, rule, ['EmbeddedCauset.relabel'],
                   lambda: ctx.client(src, [X, D], overrides=NO_RELATIONS),
                   models, want, post=post)


NOTE = (
    'Client fragments that construct, embed, disembed and read events '
    '(every sequence of up to three operations against the two-state '
    'automaton of the description), and that construct causets with every '
    'documented name and with all combinations of up to four dimensions, '
    'are reduced to value graphs including the raised exceptions. The '
    'relations of embedded causets are folds over the coordinate list, '
    'compared with the metric of each spacetime for four points in general '
    'position.')
