"""C31: drawn causal cones."""
import itertools
import math
import os
import random

import numpy as np

from .. import terms as t
from ..evalr import ext, _field_sorts
from ..interp import Err, FDict, Interp, Model, Obj, Unk
from ..shapes import patch_apps
from .c22 import drawn

O, TS = t.sym('o', 'array'), t.sym('ts', 'num')
PF = t.sym('P', 'num')
PT = t.sym('tup:P', 'list:num')
RHO, A0, K = t.sym('rho', 'num'), t.sym('A', 'num'), t.sym('K', 'dict')
LOG = t.sym('axeslog', 'event')    # where the axes keep what is drawn
N = 8                       # sampling of the curves


class Cone:
    """One construction of a spacetime and one selection of axes"""
    def __init__(self, tag, cls, dim, expr, args, dims, ref, **kw):
        self.tag, self.cls, self.dim, self.expr = tag, cls, dim, expr
        self.args, self.dims, self.ref = args, dims, ref
        self.period, self.rho = kw.get('period'), kw.get('rho')
        self.quals = [q for c in kw.get('owners', (cls,)) for q in
                      (c + '.ConePlotter',)]

    def build(self, ctx, sign, fade):
        names = [a.args[0].replace('tup:', '') for a in self.args]
        src = (
            'def entry(o, ts, K, A, ax%s):\n'
            '    D = dict(K)\n'
            '    p = %s.ConePlotter(%s, D, %d, ax, %s, %d)\n'
            '    p(o + 0.5, ts + %s)\n'
            '    ax.clear()\n'
            '    return p(o, ts), ax.log(), D\n' % (
                ''.join(', ' + n for n in names), self.expr,
                list(self.dims), sign,
                'lambda r: A - r' if fade else 'None', N, 0.75))
        return ctx.client(src, [O, TS, K, A0, ext('AX')] + list(self.args),
                          overrides=axes())


def axes():
    def add(name):
        make = drawn(name)

        def f(ev, args, kwargs, st, fr):
            d = make(ev, args, kwargs, st, fr)
            h = ev.hmap(st, 'axes:log')
            st.heap['axes:log'] = t.store(h, LOG, t.add(
                t.sel(h, LOG, 'list'), t.lst(d)))
            return d
        return f

    _field_sorts['axes:log'] = 'list'

    def clear(ev, args, kwargs, st, fr):
        h = ev.hmap(st, 'axes:log')
        st.heap['axes:log'] = t.store(h, LOG, t.lst())
        return t.NONE
    ov = {'AX.' + n: add(n) for n in ('add_patch', 'plot_surface')}
    ov['AX.clear'] = clear
    ov['AX.log'] = lambda ev, args, kwargs, st, fr: t.sel(
        ev.hmap(st, 'axes:log'), LOG, 'list')
    return ov


def cones():
    D2, D3 = [(1, 0), (0, 1)], [(1, 0), (0, 2), (1, 2), (2, 1)]
    S3 = [(0, 1, 2), (1, 0, 2), (1, 2, 0), (2, 1, 0)]
    for d, dims in ((2, D2), (3, D3 + S3),
                    (4, [(3, 0), (2, 3), (0, 3, 1), (1, 2, 3), (3, 1, 2)])):
        for ds in dims:
            yield Cone('flat %dD, dims %s' % (d, list(ds)), 'FlatSpacetime',
                       d, 'FlatSpacetime(%d)' % d, [], ds, 'flat')
            yield Cone('flat %dD, one period, dims %s' % (d, list(ds)),
                       'FlatSpacetime', d, 'FlatSpacetime(%d, period=P)' % d,
                       [PF], ds, 'flat', period='float')
            if d > 2:
                yield Cone('flat %dD, period per direction, dims %s' % (
                    d, list(ds)), 'FlatSpacetime', d,
                    'FlatSpacetime(%d, P)' % d, [PT], ds, 'flat',
                    period='tuple')
    for d, dims in ((2, D2), (3, D3 + S3), (4, [(1, 3), (3, 2, 0)])):
        for ds in dims:
            yield Cone('de Sitter %dD, dims %s' % (d, list(ds)),
                       'deSitterSpacetime', d,
                       'deSitterSpacetime(%d, r_dS=rho)' % d, [RHO], ds,
                       'dS', owners=('Spacetime',))
    for ds in D2:
        yield Cone('Eddington-Finkelstein, dims %s' % list(ds),
                   'BlackHoleSpacetime', 2, 'BlackHoleSpacetime(2, r_S=rho)',
                   [RHO], ds, 'EF', owners=('Spacetime',))
        yield Cone('Schwarzschild, dims %s' % list(ds),
                   'BlackHoleSpacetime', 2,
                   "BlackHoleSpacetime(2, rho, 'Schwarzschild')", [RHO], ds,
                   'S', owners=('Spacetime',))


OPTIONS = (FDict(), FDict(facecolor='none', alpha=0.25),
           FDict(edgecolor='#102030', linewidth=2.0))


class Case:
    pass


def models(c, sign, fade, n):
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1) * 17 +
                        c.dim * 5 + sum(c.dims) + len(c.tag) + sign)
    U = rng.uniform
    for k in range(n):
        m = Model({}, {}, '')
        w = Case()
        w.cone, w.sign = c, sign
        w.o = [U(-1, 1) for _ in range(c.dim)]
        w.rho = None
        if c.ref != 'flat':
            w.rho = round(U(0.4, 2.0), 2)
            if c.ref == 'dS':
                f = U(0.1, 0.95)
                if k % 5 == 3:
                    f = U(1.05, 2.0)         # outside of the static patch
                if k % 5 == 4:
                    f = 0.0
                x = [0.0] * c.dim
                for i in range(1, c.dim):
                    # other coordinates vanish: slice and projection agree
                    if i in c.dims:
                        x[i] = U(-1, 1) or 0.5
                s = math.sqrt(sum(y * y for y in x[1:]))
                w.o = [w.o[0]] + [y / s * f * w.rho for y in x[1:]]
            else:
                f = (U(1.1, 4.0), U(0.2, 0.9), 1.0)[k % 5 % 3]
                w.o = [w.o[0], rng.choice((-1, 1)) * f * w.rho]
        w.per = None
        if c.period == 'float':
            p = U(2.5, 6.0)
            m.syms['P'] = p
            w.per = [p] * (c.dim - 1)
        elif c.period == 'tuple':
            p = [U(2.5, 6.0) for _ in range(c.dim - 1)]
            if k % 2:
                p[k // 2 % len(p)] = 0.0
            m.syms['tup:P'] = tuple(p)
            w.per = p
        r = U(0.2, 1.5)
        if k % 6 == 5:
            r = (0.0, -0.5)[k // 6 % 2]
        w.ts = w.o[0] + sign * r
        w.r = sign * (w.ts - w.o[0])
        w.alpha = None
        m.syms['A'] = 0.0
        m.syms['axeslog'] = Obj('log')
        if fade:
            A = w.r + (0.25, 0.75, 0.0, -0.5)[k % 4]
            m.syms['A'] = A
            w.alpha = A - w.r
        w.K = OPTIONS[k % 3]
        m.syms.update(o=np.array(w.o), ts=w.ts, K=w.K)
        if w.rho is not None:
            m.syms['rho'] = w.rho
        m.desc = '%s, sign %d, origin %s, timeslice %.4g%s%s' % (
            c.tag, sign, [round(x, 4) for x in w.o], w.ts,
            '' if w.per is None else ', period %s' % [
                round(x, 3) for x in w.per],
            '' if w.rho is None else ', radius %s' % w.rho)
        m.maps['axes:log'] = lambda x: ()
        m.apps['drawn'] = lambda *x: tuple(x)
        m.apps['star'] = lambda *x: tuple(itertools.chain(*x))
        patch_apps(m)
        m.apps['matplotlib.patches.Polygon'] = \
            lambda xy, closed=True, **kw: ('polygon', np.array(
                [[float(b) for b in a] for a in xy]), dict(
                        kw.pop('**', {}), **kw))
        m.want = w
        yield m


# ------------------------------------------------------------ reference
def tol(*xs):
    return 1e-7 + 1e-7 * max(abs(x) for x in xs)


def images(w):
    """Shifts of the plotted axes by the periods"""
    c = w.cone
    out = []
    for d in c.dims:
        p = w.per[d - 1] if w.per and d > 0 else 0.0
        out.append((-p, 0.0, p) if p > 0 else (0.0,))
    return list(itertools.product(*out))


def parts(P):
    out, cur = [], []
    for p in P:
        if np.isnan(p).all():
            out.append(np.array(cur))
            cur = []
        else:
            cur.append(p)
    out.append(np.array(cur))
    return [p for p in out if len(p)]


def around(Q):
    """largest angle seen from the middle without a point"""
    a = sorted(math.atan2(y, x) for x, y in Q)
    return max([b - a_ for a_, b in zip(a, a[1:])] +
               [a[0] + 2 * math.pi - a[-1]])


def split(c, P):
    """times (or None) and space coordinates of plotted points"""
    k = [i for i, d in enumerate(c.dims) if d]
    tm = P[:, c.dims.index(0)] if 0 in c.dims else None
    return tm, P[:, k]


def flat_part(w, P, shift):
    """P is the boundary of the cone of the shifted origin; text if not"""
    c = w.cone
    tm, X = split(c, P)
    k = [d for d in c.dims if d]
    mid = np.array([w.o[d] for d in k]) + np.array(
        [s for s, d in zip(shift, c.dims) if d])
    rel = X - mid
    dist = np.sqrt((rel**2).sum(axis=1))
    if tm is None:
        if np.abs(dist - w.r).max() > 1e-6:
            return 'radius %.6g instead of %.6g' % (
                dist[np.abs(dist - w.r).argmax()], w.r)
        return covered(w, rel)
    if ((tm - w.o[0]) * w.sign).min() < -1e-6 or \
            ((w.ts - tm) * w.sign).min() < -1e-6:
        return 'times [%.6g, %.6g]' % (tm.min(), tm.max())
    on = np.abs(dist - np.abs(tm - w.o[0])) < 1e-6
    if not on.all():
        return 'point %s is not on the cone' % P[~on][0]
    if not (dist < 1e-6).any():
        return 'no tip'
    base = rel[np.abs(tm - w.ts) < 1e-6]
    if not len(base):
        return 'does not reach the timeslice'
    return covered(w, base)


def covered(w, rel):
    if rel.shape[1] == 1:
        if rel.min() > -w.r + 1e-6 or rel.max() < w.r - 1e-6:
            return 'one side is missing'
    elif rel.shape[1] == 2:
        if around(rel) > 2.1 * math.pi / N:
            return 'curve is not closed'
    else:
        for i, j in ((0, 1), (1, 2), (0, 2)):
            q = rel[:, [i, j]]
            q = q[np.abs(q).max(axis=1) > 1e-9]
            if not len(q) or around(q) > 2.1 * math.pi / (N // 2):
                return 'surface is not closed'
    return None


def flat(w, groups):
    want = images(w)
    if len(groups) != len(want):
        return '%d parts for %d images' % (len(groups), len(want))
    left = list(want)
    for P in groups:
        why = None
        for s in left:
            q = flat_part(w, P, s)
            if q is None:
                left.remove(s)
                break
            if why is None or not any(s):
                why = q
        else:
            return why or 'part drawn twice'
    return None


def embed(p, a):
    amp = math.sqrt(max(a * a - sum(x * x for x in p[1:]), 0.0))
    return np.array([amp * math.sinh(p[0] / a), amp * math.cosh(p[0] / a)] +
                    list(p[1:]))


def dS(w, groups):
    if len(groups) != 1:
        return '%d parts' % len(groups)
    c, P, a = w.cone, groups[0], w.rho
    e0 = embed(w.o, a)
    tip = False
    base = []
    for p in P:
        q = [w.ts] + [0.0] * (c.dim - 1)
        for i, d in enumerate(c.dims):
            q[d] = p[i]
        if sum(x * x for x in q[1:]) > a * a * (1 + 1e-9):
            return 'point %s is outside of the static patch' % p
        if (q[0] - w.o[0]) * w.sign < -1e-6 or \
                (w.ts - q[0]) * w.sign < -1e-6:
            return 'time %.6g' % q[0]
        d = embed(q, a) - e0
        scale = max(1.0, (embed(q, a)**2).max())
        if abs(-d[0]**2 + (d[1:]**2).sum()) > 1e-6 * scale:
            return 'point %s is not on the light cone' % p
        tip = tip or abs(q[0] - w.o[0]) < 1e-9 and (d**2).sum() < 1e-9
        if abs(q[0] - w.ts) < 1e-6:
            base.append(p)
    if 0 in c.dims and not tip:
        return 'no tip'
    if not base:
        return 'does not reach the timeslice'
    tm, X = split(c, np.array(base))
    if X.shape[1] == 1:
        k = [d for d in c.dims if d][0]
        for s in (-1, 1):
            x = a * math.tanh(math.atanh(w.o[k] / a) + s * w.r / a)
            if np.abs(X[:, 0] - x).min() > 1e-5 * a:
                return 'no point %.6g at the timeslice' % x
        return None
    mid = (X.max(axis=0) + X.min(axis=0)) / 2
    if around(X - mid) > 2.5 * math.pi / N:
        return 'curve is not closed'
    return None


def rays(kind, R, t0, r0, r):
    """times of the outgoing and the ingoing light ray at radius r"""
    if r == R:
        return ()
    L = math.log(abs((r - R) / (r0 - R)))
    if kind == 'S':
        return (t0 + r - r0 + R * L, t0 + r0 - r - R * L)
    return (t0 + r - r0 + 2 * R * L, t0 + r0 - r)


def hole(w, groups):
    c, R = w.cone, w.rho
    t0, x0 = w.o
    r0, side = abs(x0), math.copysign(1, x0)
    kt = c.dims.index(0)
    P = np.concatenate(groups)[:, [kt, 1 - kt]]
    onray = [False, False]
    at = [[], []]
    origin = False
    for tm, x in P:
        r = x * side
        if r < -1e-9:
            return 'point on the other side'
        origin = origin or abs(tm - t0) < 1e-9 and abs(r - r0) < 1e-9
        if r0 == R:
            # the horizon is one light ray
            if abs(r - R) > 1e-9 and r > 1e-9 and not (
                    c.ref == 'EF' and abs(tm - (t0 + r0 - r)) < 1e-6):
                return 'point (%.6g, %.6g) is not on a light ray' % (tm, x)
            continue
        if abs(r - R) < 1e-12:
            return 'point on the horizon'
        hit = [abs(tm - y) < 1e-2 * max(1.0, abs(R / (r - R)) * 1e-3)
               for y in rays(c.ref, R, t0, r0, r)]
        if not any(hit) and r > 1e-9:
            return 'point (%.6g, %.6g) is not on a light ray' % (tm, x)
        for i in (0, 1):
            if hit[i] and abs(r - r0) > 1e-9:
                onray[i] = True
                at[i].append((tm, r))
    if not origin:
        return 'no tip'
    if r0 == R:
        if np.abs(P[:, 0] - w.ts).min() > 1e-6:
            return 'does not reach the timeslice'
        return None
    if not all(onray):
        return 'only one light ray'
    inside = c.ref == 'S' and r0 < R
    for i in (0, 1):
        ts = [a for a, _ in at[i]]
        rs = [b for _, b in at[i]]
        if inside and w.sign > 0:
            if min(rs) > 1e-9:
                return 'light ray does not reach the singularity'
            continue
        reach = min(abs(a - w.ts) for a in ts) < 1e-2 or \
            c.ref == 'EF' and min(rs) < 1e-9
        if not reach:
            return 'light ray does not reach the timeslice'
        if not inside:
            if min((a - t0) * w.sign for a in ts) < -1e-2 or \
                    max((a - w.ts) * w.sign for a in ts) > 1e-2:
                return 'times of the light ray [%.6g, %.6g]' % (
                    min(ts), max(ts))
    return None


REF = {'flat': flat, 'dS': dS, 'EF': hole, 'S': hole}


def nothing(w):
    if w.r <= 0 or w.alpha is not None and w.alpha <= 0:
        return True
    return w.cone.ref == 'dS' and sum(
        x * x for x in w.o[1:]) >= w.rho**2


def params(w):
    k = dict(w.K)
    if w.alpha is not None:
        k['alpha'] = w.alpha
    return k


def same(a, b):
    if set(a) != set(b):
        return False
    return all(a[k] == b[k] or isinstance(b[k], float) and
               abs(a[k] - b[k]) < 1e-9 for k in b)


def check(got, w):
    if isinstance(got, Err):
        return repr(got)
    p, log, k = got
    if not same(dict(k), dict(w.K)):
        return 'the parameters of the caller are changed'
    if nothing(w):
        return None if p is None and not log else \
            'drawn without an extent or opacity'
    if p is None:
        return 'nothing drawn'
    c = w.cone
    if len(c.dims) == 2:
        if not (isinstance(p, tuple) and p[0] == 'polygon'):
            raise Unk('no polygon')
        if not same(p[2], params(w)):
            return 'parameters %s' % (p[2],)
        if [x[0] for x in log] != ['add_patch'] or len(log[0][1]) != 1 or \
                not np.array_equal(log[0][1][0][1], p[1], equal_nan=True):
            return 'the patch is not added to the axes'
        groups = parts(p[1])
    else:
        if not all(isinstance(x, tuple) and len(x) == 3 for x in p):
            raise Unk('no surfaces')
        if len(log) != len(p):
            return '%d surfaces plotted, %d returned' % (len(log), len(p))
        groups = []
        for x, y in zip(p, log):
            if y[0] != 'plot_surface' or not all(
                    np.array_equal(a, b) for a, b in zip(x, y[1])):
                return 'a surface is not plotted'
            if not same(y[2], params(w)):
                return 'parameters %s' % (y[2],)
            xyz = np.broadcast_arrays(*[np.asarray(a, float) for a in x])
            groups.append(np.stack([a.ravel() for a in xyz], axis=1))
    if any(not np.isfinite(g).all() for g in groups):
        return 'undefined coordinates'
    return REF[c.ref](w, groups)


def run(ctx):
    n = 48 if ctx.thorough else 12
    for c in cones():
        for sign in (1, -1):
            fade = (len(c.tag) + sign + sum(c.dims)) // 2 % 2 == 0
            decide(ctx, c, sign, fade, n)
    return ctx.finish(NOTE, 40)


def decide(ctx, c, sign, fade, n):
    def fn():
        r = c.build(ctx, sign, fade)
        for m in models(c, sign, fade, n):
            try:
                got = Interp(m).outcome(r.outcome)
                why = check(got, m.want)
            except Unk as e:
                yield 'unk', 'value not known: %s' % e
                continue
            if why:
                yield 'bad', 'case: %s: %s' % (m.desc, why)
            else:
                yield 'ok', None
    ctx.obligation('%s cone: %s%s' % (
        'future' if sign > 0 else 'past', c.tag, ', faded' if fade else ''),
        'the drawn outline is the boundary of the causal cone', c.quals, fn)


NOTE = (
    'The construction of the spacetime, its cone plotter and the call of '
    'the returned function (a second time after a call for another event) '
    'are reduced to one gated value graph per spacetime and selection of '
    'axes. It is compared with the light cone of the metric by random '
    'interpretation of origin, timeslice, period, radius and opacity: every '
    'vertex has to be on the cone, the tip and both ends at the timeslice '
    'have to be there, once for every periodic image.')
