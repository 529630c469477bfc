"""C16: every supported shape is handled wherever shapes are used."""
import itertools

from ..core import Ctx, Skip
from ..interp import Err, Interp, Unk, Model, Draws
from ..shapes import (Shape, PARAMS, NAMES, SYM, ARG, close, patch_apps,
                      outline)
from .. import terms as t

INIT = ['CoordinateShape.__init__']
V = t.sym('v', 'num')
VL = t.sym('w', 'list:num')


def run(ctx):
    acceptance(ctx)
    rejection(ctx)
    uses(ctx)
    return ctx.finish(NOTE, 60)


def plain(name):
    return 'bicone' if name == 'diamond' else name


def acceptance(ctx):
    for name in NAMES:
        ps = PARAMS[name]
        for d in (1, 2, 3, 4):
            for given in [ps + ('center',), ()] + [(p,) for p in
                                                   ps + ('center',)]:
                s = Shape(name, d, given)
                body = 'return S.Dim, S.Name, str(S), S.Center%s' % ''.join(
                    ', S.Parameter(%r)' % p for p in ps)

                def want(m):
                    st = '%d-%s' % (d, plain(name))
                    if m.val.get('hollow', 0) > 0 and 'hollow' in ps:
                        st = 'hollow ' + st
                    return (d, plain(name), st, m.val['center']) + tuple(
                        m.val[p] for p in ps)
                ctx.decide(
                    'parameters: %s, %dD, %s' % (name, d,
                                                 '+'.join(given) or 'defaults'),
                    'a documented shape is accepted with its documented '
                    'parameters and defaults',
                    INIT + ['CoordinateShape.Parameter'],
                    lambda: s.build(ctx, body), lambda: s.models(8), want,
                    cmp=close)


def reject(ctx, what, expr, models, bad):
    """constructing raises ValueError exactly where bad(value)"""
    ctx.decide('rejection: ' + what, 'the constructor raises ValueError '
               'exactly for values outside of the documented range', INIT,
               lambda: ctx.client(
                   'def entry(v, w):\n    S = %s\n    return True\n' % expr,
                   [V, VL]),
               models, lambda m: Err('ValueError') if bad(m) else True)


def nums(vals):
    for v in vals:
        m = Model({'v': v, 'w': (1.0,)}, {}, 'v = %r' % (v,))
        m.v = v
        yield m


def lists(vals):
    for v in vals:
        m = Model({'w': v, 'v': 1.0}, {}, 'w = %r' % (v,))
        m.v = v
        yield m


def rejection(ctx):
    for d in (0, -1, -5):
        for name in NAMES:
            reject(ctx, '%s of dimension %d' % (name, d),
                   'CoordinateShape(%d, %r)' % (d, name), lambda: nums([1.0]),
                   lambda m: True)
    for name in ('', 'Ball', 'sphere', 'cone', 'cub', 'cuboids', 'diamonds',
                 'hollow ball', 'cylinde', 'rectangle', 'bi', 'l',
                 'halfdiamond', 'my ball', 'hypercube', 'ball2', 'bicone ',
                 ' cube', 'CUBE', 'Diamond', 'double cone', 'cylindrical',
                 'cuboid-', 'tricone'):
        reject(ctx, 'name %r' % name, 'CoordinateShape(2, %r)' % name,
               lambda: nums([1.0]), lambda m: True)
    size = [-2.0, -1e-3, 0.0, 1e-3, 0.5, 1.0, 1.5, 20.0, 0, 1, -1, 3]
    frac = [-2.0, -1e-3, 0.0, 1e-3, 0.5, 0.999, 1.0, 1.001, 3.0, 0, 1]
    for name in NAMES:
        for d in (1, 2, 3):
            for p in PARAMS[name]:
                if p == 'edges':
                    continue
                reject(ctx, '%s of a %dD %s' % (p, d, name),
                       'CoordinateShape(%d, %r, %s=v)' % (d, name, p),
                       lambda: nums(frac if p == 'hollow' else size),
                       (lambda m: not 0.0 <= m.v < 1.0) if p == 'hollow'
                       else (lambda m: m.v <= 0.0))
            for n in range(0, d + 3):
                reject(ctx, 'center of length %d for a %dD %s' % (n, d, name),
                       'CoordinateShape(%d, %r, center=w)' % (d, name),
                       lambda: lists([tuple(-1.5 + k for k in range(n))]),
                       lambda m: n != d)
            reject(ctx, 'number as center of a %dD %s' % (d, name),
                   'CoordinateShape(%d, %r, center=v)' % (d, name),
                   lambda: nums([0.5]), lambda m: True)
            reject(ctx, 'nested center of a %dD %s' % (d, name),
                   'CoordinateShape(%d, %r, center=[w])' % (d, name),
                   lambda: lists([(1.0,) * d]), lambda m: True)
    for d in (1, 2, 3, 4):
        def cases():
            for n in range(1, d + 3):
                for k in range(n):
                    for bad in (0.0, -1.0, -1e-3):
                        yield tuple(bad if i == k else 1.0 + i
                                    for i in range(n))
                    for j in range(k):
                        for bad in (-1.0, 0.0):
                            yield tuple(bad if i in (j, k) else 1.0 + i
                                        for i in range(n))
                yield tuple(0.5 + i for i in range(n))
                yield (-2.0,) * n
        reject(ctx, 'edges of a %dD cuboid' % d,
               "CoordinateShape(%d, 'cuboid', edges=w)" % d,
               lambda: lists(cases()),
               lambda m: len(m.v) != d or min(m.v) <= 0.0)


def uses(ctx):
    """no use of a valid shape fails"""
    total = {
        'Volume': 'return S.Volume',
        'str': 'return str(S)',
        'repr': 'return repr(S)'}
    for name in NAMES:
        for d in (1, 2, 3, 4):
            for given in (PARAMS[name] + ('center',), ()):
                s = Shape(name, d, given)
                us = dict(total)
                for i in range(d):
                    us['Limits(%d)' % i] = 'return S.Limits(%d)' % i
                us['MaxEdgeHalf'] = 'return S.MaxEdgeHalf(%s)' % list(range(d))
                us['sprinkling'] = (
                    'C = SprinkledCauset(dim=%d, shape=S)\n'
                    'return C.sprinkle(2, rng) is None' % d)
                us['sprinkling by name'] = (
                    'C = SprinkledCauset(card=2, dim=%d, shape=%r)\n'
                    'return C.Shape.Name' % (d, name))
                us['embedding'] = (
                    'C = EmbeddedCauset(shape=S)\n'
                    'return C.Shape.Name, C.Dim')
                if d > 1:
                    us['plot 2D'] = 'return S.plot(%s)' % [d - 1, 0]
                    us['plot 2D space'] = 'return S.plot(%s)' % [1, d - 1]
                if d > 2:
                    us['plot 3D'] = 'return S.plot(%s)' % [1, 0, 2]
                    us['plot 3D space'] = 'return S.plot(%s)' % \
                        [d - 2, d - 1, 1]
                for u in us:
                    if u == 'sprinkling by name' and given:
                        continue
                    if u == 'sprinkling' and name == 'cylinder' and d == 1 \
                            and given:
                        continue
                    decide_use(ctx, s, u, us[u])


def decide_use(ctx, s, u, body):
    def fn():
        from ..ops import NO_RELATIONS
        r = s.build(ctx, body, extra=['rng'] if 'rng' in body else [],
                    overrides=NO_RELATIONS)
        for k, m in enumerate(s.models(4)):
            patch_apps(m)
            m.draws = Draws(k)
            try:
                got = Interp(m).outcome(r.outcome)
            except Unk as e:
                yield 'unk', 'value not known: %s' % e
                continue
            if isinstance(got, Err):
                yield 'bad', 'case: %s: %s' % (m.desc, got)
            elif u in ('sprinkling by name',) and got != plain(s.name) or \
                    u == 'embedding' and got != (plain(s.name), s.dim):
                yield 'bad', 'case: %s: the shape is %s' % (m.desc, got)
            else:
                yield 'ok', None
    at = {'Volume': 'CoordinateShape.Volume',
          'Limits': 'CoordinateShape.Limits',
          'MaxEdgeHalf': 'CoordinateShape.MaxEdgeHalf',
          'plot': 'CoordinateShape.plot',
          'sprinkling': 'SprinkledCauset.sprinkle',
          'embedding': 'EmbeddedCauset.__init__',
          'str': 'CoordinateShape.__str__',
          'repr': 'CoordinateShape.__repr__'}
    q = [v for k, v in at.items() if u.startswith(k)]
    ctx.obligation(
        '%s: %s, %dD, %s' % (u, s.name, s.dim,
                             '+'.join(s.given) or 'defaults'),
        'no use of a valid shape reads a parameter that the shape does not '
        'define or fails otherwise', q, fn)


NOTE = (
    'Per supported shape name, dimension and set of given arguments the '
    'constructor and every use of the shape (volume, limits, extent, 2D and '
    '3D plot, sprinkling by object and by name, embedding, text) is reduced '
    'to a gated value graph including its raise conditions; defaults, '
    'rejections at and around the documented bounds and the absence of '
    'exceptions are read off the graphs.')
