"""Causality functions of the spacetimes: value graphs per configuration and
valuations directed at the regions of the metric."""
import math
import os
import random

import numpy as np

from . import terms as t
from .core import Skip
from .interp import Model

X, Y = t.sym('x', 'array'), t.sym('y', 'array')
PF = t.sym('P', 'num')
PT = t.sym('tup:P', 'list:num')
RHO = t.sym('rho', 'num')


class Config:
    """One construction of a spacetime and its causality function."""
    def __init__(self, name, cls, dim, expr, args, kind, **kw):
        self.name, self.cls, self.dim = name, cls, dim
        self.expr, self.args, self.kind = expr, args, kind
        self.kw = kw

    @property
    def quals(self):
        return [self.cls + '.Causality']

    def build(self, ctx, swap=False):
        names = [a.args[0].replace('tup:', '') for a in self.args]
        src = 'def entry(x, y%s):\n    return %s.Causality()(%s)\n' % (
            ''.join(', ' + n for n in names), self.expr,
            'y, x' if swap else 'x, y')
        return ctx.client(src, [X, Y] + list(self.args))


def configs():
    out = [Config('flat 1D', 'FlatSpacetime', 1, 'FlatSpacetime(1)', [],
                  'flat')]
    for d in (2, 3, 4):
        out += [
            Config('flat %dD' % d, 'FlatSpacetime', d,
                   'FlatSpacetime(%d)' % d, [], 'flat'),
            Config('flat %dD, one period' % d, 'FlatSpacetime', d,
                   'FlatSpacetime(%d, period=P)' % d, [PF], 'flat',
                   period='float'),
            Config('flat %dD, period per direction' % d, 'FlatSpacetime', d,
                   'FlatSpacetime(%d, P)' % d, [PT], 'flat',
                   period='tuple')]
    for d in (2, 3, 4):
        out += [
            Config('de Sitter %dD' % d, 'deSitterSpacetime', d,
                   'deSitterSpacetime(%d, r_dS=rho)' % d, [RHO], 'dS'),
            Config('anti-de Sitter %dD' % d, 'AntideSitterSpacetime', d,
                   'AntideSitterSpacetime(%d, r_AdS=rho)' % d, [RHO],
                   'AdS')]
    out += [
        Config('de Sitter 2D, default radius', 'deSitterSpacetime', 2,
               'deSitterSpacetime(2)', [], 'dS', rho=1.0),
        Config('anti-de Sitter 2D, default radius', 'AntideSitterSpacetime',
               2, 'AntideSitterSpacetime(2)', [], 'AdS', rho=0.5),
        Config('black hole, default', 'BlackHoleSpacetime', 2,
               'BlackHoleSpacetime(2)', [], 'EF', rho=0.5),
        Config('black hole, Eddington-Finkelstein', 'BlackHoleSpacetime', 2,
               "BlackHoleSpacetime(2, r_S=rho, "
               "metric='Eddington-Finkelstein')", [RHO], 'EF'),
        Config('black hole, Schwarzschild', 'BlackHoleSpacetime', 2,
               "BlackHoleSpacetime(2, rho, 'Schwarzschild')", [RHO], 'S')]
    return out


# ------------------------------------------------------- specification
def flat_distance(x, y, per):
    s = 0.0
    for i in range(1, len(x)):
        d = abs(y[i] - x[i])
        if per is not None and per[i - 1] > 0.0:
            d = min(d, per[i - 1] - d)
        s += d * d
    return s


def excess(kind, x, y, par):
    """squared time separation minus squared spatial separation, and the
    sign of the time direction."""
    if kind == 'flat':
        return (y[0] - x[0])**2 - flat_distance(x, y, par), y[0] - x[0]
    a = par
    sp = sum((q - p)**2 for p, q in zip(x[1:], y[1:]))
    if kind == 'dS':
        A = [math.sqrt(a * a - sum(c * c for c in p[1:])) for p in (x, y)]
        e = [(A[i] * math.sinh(p[0] / a), A[i] * math.cosh(p[0] / a))
             for i, p in enumerate((x, y))]
        d0, d1 = e[1][0] - e[0][0], e[1][1] - e[0][1]
        return d0 * d0 - d1 * d1 - sp, d0
    A = [math.sqrt(a * a + sum(c * c for c in p[1:])) for p in (x, y)]
    e = [(A[i] * math.sin(p[0] / a), A[i] * math.cos(p[0] / a))
         for i, p in enumerate((x, y))]
    d0, d1 = e[1][0] - e[0][0], e[1][1] - e[0][1]
    return d0 * d0 + d1 * d1 - sp, d0


def ray(kind, r, rs):
    """time coordinate of an outgoing radial light ray at radius r"""
    k = 2.0 if kind == 'EF' else 1.0
    return r + k * rs * math.log(abs((r - rs) / rs))


def black_hole(kind, x, y, rs):
    """(x before y, x after y)"""
    if x[1] * y[1] < 0:
        return (False, False)
    rx, ry = abs(x[1]), abs(y[1])
    dt = y[0] - x[0]
    inside = rx < rs or ry < rs
    if kind == 'S' and inside:
        if rx == ry:
            raise Skip()
        after = rx < ry           # the radius is the time inside
    else:
        after = dt < 0
    if after:
        rx, ry, dt = ry, rx, -dt
    out = ray(kind, ry, rs) - ray(kind, rx, rs)
    inn = rx - ry if kind == 'EF' else -out
    if rx < rs:
        if ry > rx:
            ok, m = False, 1.0
        else:
            ok = out >= dt >= inn
            m = min(abs(out - dt), abs(dt - inn))
    elif ry <= rx:
        ok, m = dt >= inn, abs(dt - inn)
    else:
        ok, m = dt >= out, abs(dt - out)
    if m < 1e-9:
        raise Skip()
    return (False, ok) if after else (ok, False)


def want(cfg, m):
    x, y, par = m.px, m.py_, m.par
    if cfg.kind in ('EF', 'S'):
        return black_hole(cfg.kind, x, y, par)
    if cfg.kind == 'dS' and any(sum(c * c for c in p[1:]) >= par * par
                                for p in (x, y)):
        return (False, False)
    s, d = excess(cfg.kind, x, y, par)
    if cfg.dim == 1:
        s = 1.0
    if abs(s) < 1e-9 and not m.light or abs(d) < 1e-12 and d != 0:
        raise Skip()
    ok = m.light or s >= 0
    return (d >= 0 and ok, d < 0 and ok)


# ---------------------------------------------------------- valuations
def _models(cfg, n):
    """Points of every region: far from the light cone on both sides, close
    to it on both sides, on it, at equal times, at equal points, in either
    time order; every periodic direction wrapped and not wrapped."""
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1) * 7919 +
                        len(cfg.name))

    def U(lo, hi):
        # multiples of 2^-20 are exact
        return rng.randint(int(lo * 2**20), int(hi * 2**20)) / 2**20

    for k in range(n):
        d = cfg.dim
        syms, par = {}, None
        if cfg.kind == 'flat':
            if cfg.kw.get('period') == 'float':
                P = (1.5, 2.0, 0.75, 0.0, 4.0)[k % 5]
                syms['P'] = P
                par = [P] * (d - 1)
            elif cfg.kw.get('period') == 'tuple':
                P = tuple(rng.choice((0.0, 1.5, 2.0, 0.75))
                          for _ in range(d - 1))
                syms['tup:P'] = P
                par = list(P)
            box = [p / 2 if p > 0 else 1.0 for p in par or [1.0] * (d - 1)]
        else:
            par = cfg.kw.get('rho') or (0.5, 1.0, 1.25, 2.0)[k % 4]
            if 'rho' not in cfg.kw:
                syms['rho'] = par
            lim = {'dS': 1.1, 'AdS': 1.5, 'EF': 3.0, 'S': 3.0}[cfg.kind]
            if cfg.kind == 'dS' and k % 4:
                lim = 0.98 / math.sqrt(d - 1)
            box = [lim * par] * (d - 1)
        x = [U(-1, 1)] + [U(-b, b) for b in box]
        y = [U(-1, 1)] + [U(-b, b) for b in box]
        if k % 3 == 0 and cfg.kind in ('EF', 'S'):
            y[1] = abs(y[1]) * (1 if x[1] >= 0 else -1)
        light = False
        mode = k % 9
        if mode == 1:
            y[0] = x[0]
        elif mode == 2:
            y = list(x)
            light = cfg.kind in ('flat', 'dS', 'AdS')
        elif mode == 3:
            y[1:] = x[1:]
        elif mode >= 4 and cfg.kind in ('flat', 'dS', 'AdS') and d > 1:
            # solve for the light cone, then step off it
            y[0] = x[0]
            if cfg.kind == 'flat':
                R = math.sqrt(flat_distance(x, y, par))
            else:
                R = root(cfg, x, y, par)
            if R is not None:
                off = (0.0, 1e-6, -1e-6, 0.25, -0.25)[mode - 4]
                y[0] = x[0] + (R + off) * rng.choice((1, -1))
                # rounding of the reference itself is within the tolerance
                light = mode == 4 and cfg.kind == 'flat'
        elif mode >= 4 and cfg.kind in ('EF', 'S'):
            try:
                o = ray(cfg.kind, abs(y[1]), par) - \
                    ray(cfg.kind, abs(x[1]), par)
            except ValueError:
                continue
            i = abs(x[1]) - abs(y[1]) if cfg.kind == 'EF' else -o
            y[0] = x[0] + rng.choice((o, i, -o, -i)) + \
                (1e-6, -1e-6, 0.25, -0.25, 1e-3)[mode - 4]
        syms['x'], syms['y'] = np.array(x), np.array(y)
        m = Model(syms, {}, '%s: %s, x=%s, y=%s' % (
            cfg.name, ', '.join('%s=%s' % (q.replace('tup:', ''), v)
                                for q, v in syms.items()
                                if q not in 'xy') or 'no parameter', x, y))
        m.px, m.py_, m.par, m.light = x, y, par, light
        yield m


def root(cfg, x, y, par):
    """time difference at which y is on the light cone of x"""
    z = list(y)

    def f(dt):
        z[0] = x[0] + dt
        try:
            return excess(cfg.kind, x, z, par)[0]
        except ValueError:
            return None
    lo, hi = 0.0, 1.2 * par
    a, b = f(lo), f(hi)
    if a is None or b is None or a * b > 0:
        return None
    for _ in range(80):
        mid = (lo + hi) / 2
        v = f(mid)
        if (v > 0) == (b > 0):
            hi = mid
        else:
            lo = mid
    return (lo + hi) / 2


def models(ctx, cfg):
    return _models(cfg, 1800 if ctx.thorough else 270)
