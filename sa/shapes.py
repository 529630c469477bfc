"""Coordinate shapes: construction, reference geometry and outlines."""
import itertools
import math
import os
import random

import numpy as np

from . import terms as t
from .core import Skip
from .interp import Model, Unk, Obj

SYM = {'r': t.sym('r', 'num'), 'h': t.sym('h', 'num'),
       'du': t.sym('du', 'num'), 'e': t.sym('e', 'num'),
       'c': t.sym('c', 'list:num'), 'es': t.sym('es', 'list:num'),
       'rng': t.sym('rng', 'rng')}
# parameters of every shape, in the documented order
PARAMS = {'ball': ('radius', 'hollow'), 'bicone': ('radius', 'hollow'),
          'diamond': ('radius', 'hollow'),
          'cylinder': ('radius', 'duration', 'hollow'), 'cube': ('edge',),
          'cuboid': ('edges',)}
ARG = {'radius': 'r', 'hollow': 'h', 'duration': 'du', 'edge': 'e',
       'edges': 'es', 'center': 'c'}
NAMES = tuple(PARAMS)


class Shape:
    """One way to construct a shape; `given` are the arguments passed."""
    def __init__(self, name, dim, given):
        self.name, self.dim, self.given = name, dim, tuple(given)
        self.syms = sorted({ARG[g] for g in self.given})

    def expr(self):
        return 'CoordinateShape(%d, %r%s)' % (self.dim, self.name, ''.join(
            ', %s=%s' % (g, ARG[g]) for g in self.given))

    def build(self, ctx, body, extra=(), **kw):
        names = list(self.syms) + list(extra)
        src = 'def entry(%s):\n    S = %s\n' % (', '.join(names),
                                                self.expr())
        for line in body.split('\n'):
            src += '    %s\n' % line
        return ctx.client(src, [SYM[n] for n in names], **kw)

    def values(self, syms):
        """documented parameter values"""
        v = {'radius': 1.0, 'hollow': 0.0, 'edge': 1.0,
             'edges': (1.0,) * self.dim, 'center': (0.0,) * self.dim}
        for g in self.given:
            v[g] = syms[ARG[g]]
        if 'duration' not in v:
            v['duration'] = 2.0 * v['radius']
        return v

    def desc(self, syms):
        return 'CoordinateShape(%d, %r%s)' % (self.dim, self.name, ''.join(
            ', %s=%s' % (g, syms[ARG[g]]) for g in self.given))

    def models(self, n, salt=0):
        rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1) * 31 +
                            salt + self.dim * 7 + len(self.name))

        def U(lo, hi):
            return rng.randint(int(lo * 64), int(hi * 64)) / 64.0
        for k in range(n):
            s = {'r': U(0.25, 3), 'du': U(0.25, 8), 'e': U(0.25, 4),
                 'h': (0.0, 0.5, 0.25, 0.875)[k % 4],
                 'c': tuple(U(-4, 4) for _ in range(self.dim)),
                 'es': tuple(U(0.25, 4) for _ in range(self.dim))}
            m = Model({x: s[x] for x in self.syms}, {}, self.desc(s))
            m.syms['rng'] = Obj('rng', 'rng')
            m.val = self.values(s)
            m.shape = self
            yield m


def shapes(dims=(1, 2, 3, 4, 5)):
    """Every shape with all arguments, with none and with each single one."""
    for name in NAMES:
        for d in dims:
            ps = PARAMS[name] + ('center',)
            for given in [ps, ()] + ([(p,) for p in ps] if d in (2, 3) and
                                     name != 'diamond' else []):
                yield Shape(name, d, given)


# ---------------------------------------------------- reference geometry
def ball_volume(n, r):
    return math.pi**(n / 2.0) / math.gamma(n / 2.0 + 1.0) * r**n


def volume(s, v):
    d = s.dim
    r, h = v['radius'], v['hollow']
    if s.name == 'ball':
        return ball_volume(d, r) * (1.0 - h**d)
    if s.name in ('bicone', 'diamond'):
        return 2.0 * r * ball_volume(d - 1, r) / d * (1.0 - h**d)
    if s.name == 'cylinder':
        if d == 1:
            if h > 0:
                raise Skip()      # no space dimension to be hollow
            return v['duration']
        return v['duration'] * ball_volume(d - 1, r) * (1.0 - h**(d - 1))
    if s.name == 'cube':
        return v['edge']**d
    return math.prod(v['edges'])


def half(s, v, i):
    """half of the extent along dimension i"""
    if s.name == 'cube':
        return v['edge'] / 2
    if s.name == 'cuboid':
        return v['edges'][i] / 2
    if s.name == 'cylinder' and i == 0:
        return v['duration'] / 2
    return v['radius']


def limits(s, v, i):
    c, l = v['center'][i], half(s, v, i)
    return (c - l, c + l)


def depth(s, v, x):
    """(relative size of the coordinates x, relative size inside which the
    interior is empty): x is in the shape if the first is at most 1 and not
    smaller than the second."""
    y = [p - c for p, c in zip(x, v['center'])]
    r = v['radius']
    if s.name == 'ball':
        return math.sqrt(sum(p * p for p in y)) / r, v['hollow']
    sp = math.sqrt(sum(p * p for p in y[1:]))
    if s.name in ('bicone', 'diamond'):
        return (abs(y[0]) + sp) / r, v['hollow']
    if s.name == 'cylinder':
        q = sp / r
        if abs(y[0]) > v['duration'] / 2 * (1 + 1e-5):
            return 2.0, v['hollow']
        return q, v['hollow']
    return max(abs(p) / half(s, v, i) for i, p in enumerate(y)), 0.0


def close(a, b, tol=2e-5):
    if isinstance(a, np.ndarray) and a.size == 1 and a.ndim == 0:
        a = a.item()
    if isinstance(a, np.ndarray) and isinstance(b, tuple):
        a = tuple(a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y, tol)
                                        for x, y in zip(a, b))
    if type(a).__name__ == 'Err' or type(b).__name__ == 'Err':
        return a == b
    if isinstance(b, (str, bool)) or b is None:
        return a == b
    try:
        return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))
    except (TypeError, ValueError):
        return False


# ------------------------------------------------------------- outlines
def patch_apps(m):
    """matplotlib patches as the outline they describe"""
    def pts(x):
        return ('points', np.array([[float(b) for b in a] for a in x]))

    def rectangle(xy, width=None, height=None, angle=0.0, **kw):
        if angle:
            raise Unk('rotated rectangle')
        a, b = float(xy[0]), float(xy[1])
        w, h = float(width), float(height)
        return pts([[a, b], [a + w, b], [a + w, b + h], [a, b + h]])

    def ellipse(xy, width=None, height=None, angle=0.0, **kw):
        if angle:
            raise Unk('rotated ellipse')
        phi = np.linspace(0, 2 * np.pi, 129)
        return pts(np.stack([xy[0] + width / 2 * np.cos(phi),
                             xy[1] + height / 2 * np.sin(phi)], axis=1))

    def circle(xy, radius=5, **kw):
        return ellipse(xy, 2 * float(radius), 2 * float(radius))

    def polygon(xy, closed=True, **kw):
        return pts(xy)
    for n, f in (('Rectangle', rectangle), ('Ellipse', ellipse),
                 ('Circle', circle), ('Polygon', polygon)):
        m.apps['matplotlib.patches.' + n] = f
    m.apps['matplotlib.pyplot.gca'] = lambda **kw: Obj('axes')
    return m


def outline(v):
    """points of a plotted outline, or None"""
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'points':
        return v[1]
    if isinstance(v, tuple) and v and all(
            isinstance(q, tuple) and len(q) == 3 for q in v):
        out = []
        for q in v:
            xyz = np.broadcast_arrays(*[np.asarray(a, dtype=float)
                                        for a in q])
            out.append(np.stack([a.ravel() for a in xyz], axis=1))
        return np.concatenate(out)
    return None


def outline_ok(s, v, dims, P):
    """Does the outline span the limits of the plotted dimensions (and reach
    the hollow interior)?  Returns None or a description."""
    P = P[~np.isnan(P).any(axis=1)]
    if P.shape[1:] != (len(dims),) or not len(P):
        return 'outline of shape %s' % (P.shape,)
    for k, i in enumerate(dims):
        lo, hi = limits(s, v, i)
        tol = 2e-3 * (hi - lo) + 1e-5 * max(1, abs(lo), abs(hi))
        if abs(P[:, k].min() - lo) > tol or abs(P[:, k].max() - hi) > tol:
            return 'axis %d spans [%.6g, %.6g] instead of [%.6g, %.6g]' % (
                k, P[:, k].min(), P[:, k].max(), lo, hi)
    if 'hollow' in PARAMS[s.name] and v['hollow'] > 0:
        X = np.tile(np.array(v['center'], dtype=float), (len(P), 1))
        for k, i in enumerate(dims):
            X[:, i] = P[:, k]
        q = min(depth(s, dict(v, duration=4 * v['duration']), x)[0]
                for x in X)
        if abs(q - v['hollow']) > 5e-3:
            return 'the outline of the empty interior has relative size ' \
                '%.6g instead of %.6g' % (q, v['hollow'])
    return None
