"""C18: sprinkled coordinates are complete, inside the shape, and drawn from
the given generator only."""
import math

import numpy as np

from ..core import Ctx, Skip
from ..interp import Err, Interp, Unk, Model, Draws, Bag, Obj
from ..orders import sizes_in
from ..ops import NO_RELATIONS
from ..shapes import Shape, PARAMS, NAMES, depth, half
from .. import terms as t

TOL = 2e-5


def run(ctx):
    many = sizes_in([ctx.prog.modules['sprinkledcauset'].tree], 128)[:4] \
        if 'sprinkledcauset' in ctx.prog.modules else []
    for name in NAMES:
        ps = PARAMS[name] + ('center',)
        for d in (1, 2, 3, 4) + ((5, 6) if ctx.thorough else ()):
            for given in (ps, ()):
                s = Shape(name, d, given)
                for n in (0, 1, 3):
                    if n != 3 and given:
                        continue
                    if name == 'diamond' and n != 3:
                        continue
                    decide(ctx, s, n, 'C.sprinkle(%d, rng, S)' % n, 'object')
                    if n == 3:
                        decide(ctx, s, n, 'C.sprinkle(3, rng)', 'own shape')
                        decide(ctx, s, None, 'C.intensify(2.5, rng, S)',
                               'intensify')
                if not given:
                    decide(ctx, s, 3, None, 'constructor')
                    decide(ctx, s, 3, 'C.sprinkle(3, rng, S)', 'again')
                    decide(ctx, s, 2, 'C.sprinkle(2, rng)', 'own again')
                    decide(ctx, s, None, 'C.intensify(2.5, rng, S)',
                           'intensify again')
                # numbers the source distinguishes
                for n in many if d in (2, 3) else ():
                    decide(ctx, s, n, 'C.sprinkle(%d, rng, S)' % n, 'many')
    rejection(ctx)
    return ctx.finish(NOTE, 30)


def decide(ctx, s, n, call, how):
    own = how in ('own shape', 'constructor', 'own again')
    again = 'again' in how
    if call is None:
        body = 'C = SprinkledCauset(card=%d, dim=%d, shape=%r)\n' \
            'return [e.Coordinates for e in C], C.Card' % (n, s.dim, s.name)
    else:
        body = 'C = SprinkledCauset(dim=%d%s)\n%sR = %s\n' \
            'return [e.Coordinates for e in R], C.Card%s' % (
                s.dim, ', shape=S' if own else '',
                'C.sprinkle(2, rng%s)\n' % ('' if own else ', S')
                if again else '', call, ' - 2' if again else '')

    def fn():
        r = s.build(ctx, body, extra=['rng'], overrides=NO_RELATIONS)
        N = 60 if ctx.thorough else 12
        if how == 'many':
            N = 2
        elif again:
            N //= 4
        for k, m in enumerate(s.models(N)):
            if s.name == 'cylinder' and s.dim == 1 and m.val['hollow'] > 0:
                continue      # no space dimension to be hollow
            m.draws = Draws(k)
            try:
                got = Interp(m).outcome(r.outcome)
                bad = inside(s, m, got, n)
                if not bad and call is not None and k % 4 == 0:
                    # the same values from the given generator have to give
                    # the same coordinates, whatever other sources return
                    m.draws = Draws(k)
                    m.draws.other = k + 1000
                    g2 = Interp(m).outcome(r.outcome)
                    if not eq(got, g2):
                        bad = 'the coordinates depend on a random source ' \
                            'that is not the given generator (%s)' % (
                                ', '.join(sorted(
                                    '%s at line %d' % (nm, nd.lineno)
                                    for nm, _, nd in r.ev.sources
                                    if hasattr(nd, 'lineno'))))
            except Unk as e:
                yield 'unk', 'value not known: %s' % e
                continue
            if bad:
                yield 'bad', 'case: %s: %s: %s' % (m.desc, call or body, bad)
            else:
                yield 'ok', None
    q = {'intensify again': 'SprinkledCauset.intensify',
         'intensify': 'SprinkledCauset.intensify',
         'constructor': 'SprinkledCauset.__init__'}.get(
             how, 'SprinkledCauset.sprinkle')
    ctx.obligation(
        '%s: %s, %dD, %s, %s points' % (how, s.name, s.dim,
                                        '+'.join(s.given) or 'defaults',
                                        'Poisson' if n is None else n),
        'every draw from the generator gives the number of coordinate rows '
        'asked for, all components assigned, inside the shape and outside '
        'its hollow interior; no other source of randomness contributes',
        [q], fn)


def eq(a, b):
    try:
        x = sorted(map(tuple, a[0].items if isinstance(a[0], Bag) else a[0]))
        y = sorted(map(tuple, b[0].items if isinstance(b[0], Bag) else b[0]))
        return len(x) == len(y) and (not x or np.allclose(
            np.array(x, dtype=float), np.array(y, dtype=float)))
    except (TypeError, ValueError):
        raise Unk('rows')


def inside(s, m, got, n):
    if isinstance(got, Err):
        return str(got)
    rows, card = got
    rows = list(rows.items if isinstance(rows, Bag) else rows)
    if n is not None and len(rows) != n or card != len(rows):
        return '%d coordinate rows, cardinality %s' % (len(rows), card)
    for x in rows:
        x = [float(c) for c in x]
        if len(x) != s.dim:
            return '%d components in %s' % (len(x), x)
        if any(math.isnan(c) or math.isinf(c) for c in x):
            return 'a component is not assigned (or not finite) in %s' % x
        q, h = depth(s, m.val, x)
        # single precision of coordinates
        e = TOL * (1 + max(abs(c) for c in m.val['center'])
                   / min(half(s, m.val, i) for i in range(s.dim)))
        if q > 1 + e:
            return 'the point %s is outside (relative size %.7g)' % (x, q)
        if q < h - e:
            return 'the point %s is in the hollow interior (relative size ' \
                '%.7g)' % (x, q)
    return None


def rejection(ctx):
    V, RNG = t.sym('v', 'num'), t.sym('rng', 'rng')
    K = t.sym('k', 'int')
    for what, call, sym, vals in (
            ('sprinkle', 'C.sprinkle(k, rng)', 'k', (-3, -1)),
            ('intensify', 'C.intensify(v, rng)', 'v', (-2.0, -0.5))):
        for ask in ('', 'C.Card', 'C.Intensity'):
            def models():
                for v in vals:
                    m = Model({'v': v, 'k': v, 'rng': Obj('rng', 'rng')}, {},
                              '%s = %s' % (sym, v))
                    m.draws = Draws(1)
                    yield m
            src = 'def entry(k, v, rng):\n    C = SprinkledCauset(dim=2)\n'
            if ask:
                src += '    try:\n        %s\n    except ValueError:\n' \
                    '        return %s\n    return "accepted"\n' % (call, ask)
            else:
                src += '    return %s\n' % call
            ctx.decide(
                'negative %s %s' % (what, ask), 'a negative number is '
                'rejected with a ValueError before anything changes',
                ['SprinkledCauset.' + what],
                lambda: ctx.client(src, [K, V, RNG],
                                   overrides=NO_RELATIONS), models,
                lambda m: Err('ValueError') if not ask else 0)


NOTE = (
    'Sprinkling is reduced to a value graph whose leaves are the draws of '
    'the generator; per shape, dimension and argument set the graph is '
    'interpreted for arbitrary draws (including values at the ends of their '
    'ranges) and the resulting rows are compared with the definition of the '
    'shape. Dependence on any other random source is decided by varying '
    'only those leaves.')
