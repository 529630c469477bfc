"""C19: density, length scale and intensity."""
import math
import random

from ..core import Skip
from ..interp import Err, Interp, Unk, Model, Draws, Obj, PyErr
from ..ops import NO_RELATIONS
from ..shapes import Shape, PARAMS, NAMES, SYM, volume
from .. import terms as t

X, Y = t.sym('X', 'list:list:num'), t.sym('Y', 'list:list:num')
V, K, I = t.sym('v', 'num'), t.sym('k', 'int'), t.sym('i', 'num')
RNG = t.sym('rng', 'rng')


def run(ctx):
    embedded(ctx)
    sprinkled(ctx)
    histories(ctx)
    rejected(ctx)
    return ctx.finish(NOTE, 40)


def near(a, b):
    if isinstance(a, Err) or isinstance(b, Err):
        return a == b
    if isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and len(a) == len(b) and all(
            near(x, y) for x, y in zip(a, b))
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    return a == b or abs(a - b) <= 2e-5 * max(abs(b), 1e-6)


def rows(rng, n, d):
    return tuple(tuple(rng.randint(-64, 64) / 64.0 for _ in range(d))
                 for _ in range(n))


# ------------------------------------------------- density, length scale
def spec(n, vol, d):
    dens = n / vol
    return (dens, dens**(-1.0 / d) if n else 0.0)


def embedded(ctx):
    for name in NAMES:
        ps = PARAMS[name] + ('center',)
        for d in (1, 2, 3, 4) + ((5, 6) if ctx.thorough else ()):
            s = Shape(name, d, ps)

            def models():
                rng = random.Random(d)
                for m in s.models(8):
                    for n in (0, 1, 2, 5):
                        m.syms['X'] = rows(rng, n, d)
                        m.n = n
                        m.desc = '%s, %d events' % (s.desc(m.val_syms), n) \
                            if hasattr(m, 'val_syms') else '%d events' % n
                        yield m
            ctx.decide(
                'embedded in a %s, %dD' % (name, d),
                'density is the number of events per volume of the shape, '
                'the length scale its inverse d-th root (0 without events)',
                ['EmbeddedCauset.Density', 'EmbeddedCauset.LengthScale'],
                lambda: ev_build(ctx, s, 'C = EmbeddedCauset(shape=S, '
                                 'coordinates=X)\n'
                                 'return C.Density, C.LengthScale', ['X']),
                models, lambda m: spec(m.n, volume(s, m.val), d), cmp=near)


def ev_build(ctx, s, body, extra):
    names = list(s.syms) + list(extra)
    allsym = dict(SYM, X=X, Y=Y, v=V, k=K, i=I, rng=RNG)
    src = 'def entry(%s):\n    S = %s\n' % (', '.join(names), s.expr())
    for line in body.split('\n'):
        src += '    %s\n' % line
    return ctx.client(src, [allsym[n] for n in names],
                      overrides=NO_RELATIONS)


def sprinkled(ctx):
    for name in NAMES:
        for d in (1, 2, 3, 4) + ((5, 6) if ctx.thorough else ()):
            s = Shape(name, d, PARAMS[name] + ('center',))
            for how, arg in (('card', 'k'), ('intensity', 'i')):
                def models():
                    for m in s.models(6):
                        for v in ((1, 3, 8) if how == 'card' else
                                  (0.25, 2.0, 6.5)):
                            m.syms[arg] = m.v = v
                            m.desc = '%s = %s' % (how, v)
                            m.draws = Draws(1)
                            yield m

                def want(m):
                    dens = m.v / volume(s, m.val)
                    return (m.v, dens, dens**(-1.0 / d))
                ctx.decide(
                    'sprinkled in a %s, %dD, by %s' % (name, d, how),
                    'the intensity is the (expected) number of events '
                    'sprinkled, the density the intensity per volume, the '
                    'length scale its inverse d-th root',
                    ['SprinkledCauset.__init__', 'SprinkledCauset.Density',
                     'SprinkledCauset.LengthScale'],
                    lambda: sp_build(ctx, s, how, arg), models, want,
                    cmp=near)


def sp_build(ctx, s, how, arg):
    return ev_build(ctx, s, 'C = SprinkledCauset(%s=%s, shape=S)\n'
                    'return C.Intensity, C.Density, C.LengthScale'
                    % (how, arg), [arg])


# --------------------------------------------------------------- histories
# step: (statement, effect on (intensity, cardinality before, after, model),
#        change of the cardinality or None)
STEPS = {
    'create': ('C.create(X)', lambda i, c0, c1, m: i + len(m.x),
               lambda m: len(m.x)),
    'create unrelated': ("C.create(X, None, False)",
                         lambda i, c0, c1, m: i + len(m.x),
                         lambda m: len(m.x)),
    'create labelled': ("C.create(X, labelFormat='e{}')",
                        lambda i, c0, c1, m: i + len(m.x),
                        lambda m: len(m.x)),
    'sprinkle': ('C.sprinkle(k, rng)', lambda i, c0, c1, m: i + m.k,
                 lambda m: m.k),
    'intensify': ('C.intensify(i, rng)', lambda i, c0, c1, m: i + m.i, None),
    'add': ('C.add(EmbeddedCauset(shape=S, coordinates=Y))',
            lambda i, c0, c1, m: i + len(m.y), lambda m: len(m.y)),
    'add, unlink': ('C.add(EmbeddedCauset(shape=S, coordinates=Y), True)',
                    lambda i, c0, c1, m: i + len(m.y), lambda m: len(m.y)),
    'add present': ('C.add([e for e in C if e.Coordinates[0] < v])',
                    lambda i, c0, c1, m: i, lambda m: 0),
    'discard': ('C.discard([e for e in C if e.Coordinates[0] < v])',
                lambda i, c0, c1, m: i * c1 / c0 if c0 else i, None),
    'discard, unlink': (
        'C.discard({e for e in C if e.Coordinates[0] >= v}, unlink=True)',
        lambda i, c0, c1, m: i * c1 / c0 if c0 else i, None),
    'discard foreign': (
        'C.discard(EmbeddedCauset(shape=S, coordinates=Y))',
        lambda i, c0, c1, m: i, lambda m: 0),
    'discard all': ('C.discard(list(C))',
                    lambda i, c0, c1, m: 0.0 if c0 else i, None),
}
STARTS = {'empty': ('SprinkledCauset(shape=S)', 0.0),
          'by card': ('SprinkledCauset(card=4, shape=S)', 4.0),
          'by intensity': ('SprinkledCauset(intensity=3.5, shape=S)', 3.5)}
MUT = {'create': 'SprinkledCauset.create', 'add': 'SprinkledCauset.add',
       'sprinkle': 'SprinkledCauset.sprinkle',
       'intensify': 'SprinkledCauset.intensify',
       'discard': 'SprinkledCauset.discard'}


def histories(ctx):
    seqs = [(a,) for a in STEPS]
    seqs += [(a, b) for a in STEPS for b in STEPS
             if 'create ' not in a + ' ' and 'create ' not in b + ' ' or
             'create' in (a, b)]
    if ctx.thorough:
        main = ('create', 'sprinkle', 'intensify', 'add', 'discard',
                'discard all')
        seqs += [(a, b, c) for a in main for b in main for c in main]
    for start in STARTS:
        for seq in seqs:
            if len(seq) > 1 and start == 'by card' and not ctx.thorough:
                continue
            history(ctx, start, seq)


def history(ctx, start, seq):
    new, i0 = STARTS[start]
    src = 'def entry(X, Y, v, k, i, rng):\n    S = CoordinateShape(2, ' \
        '"cuboid", edges=[1.5, 3.0])\n    C = %s\n    R = [(C.Intensity, ' \
        'C.Density, C.LengthScale, C.Card)]\n' % new
    for x in seq:
        src += '    %s\n    R.append((C.Intensity, C.Density, ' \
            'C.LengthScale, C.Card))\n' % STEPS[x][0]
    src += '    return R\n'

    def fn():
        r = ctx.client(src, [X, Y, V, K, I, RNG], overrides=NO_RELATIONS)
        rng = random.Random(len(seq))
        n = 6 if ctx.thorough else 4
        for j in range(n):
            m = Model({}, {}, '')
            m.x, m.y = rows(rng, (3, 0, 1, 2)[j % 4], 2), \
                rows(rng, (2, 1, 3, 0)[j % 4], 2)
            m.k, m.i = (2, 1, 0, 3)[j % 4], (0.75, 3.25, 0.0, 1.5)[j % 4]
            v = (0.1, -0.2, 0.3, -5.0)[j % 4]
            m.syms.update(X=m.x, Y=m.y, v=v, k=m.k, i=m.i,
                          rng=Obj('rng', 'rng'))
            m.desc = '%d rows, %d other events, count %d, intensity %s' % (
                len(m.x), len(m.y), m.k, m.i)
            m.draws = Draws(j)
            try:
                got = Interp(m).outcome(r.outcome)
                bad = judge(m, got, i0, seq, 4.5)
            except Unk as e:
                yield 'unk', 'value not known: %s' % e
                continue
            if bad:
                yield 'bad', 'case: %s, then %s (%s): %s' % (
                    new, ', '.join(STEPS[x][0] for x in seq), m.desc, bad)
            else:
                yield 'ok', None
    ctx.obligation(
        'start %s, %s' % (start, ', '.join(seq)),
        'adding or creating events raises the intensity by the number of '
        'new events, sprinkling by the number asked for, intensifying by '
        'the intensity, and discarding scales it with the remaining '
        'fraction; density and length scale follow it',
        sorted({MUT[x.split()[0].strip(',')] for x in seq}), fn)


def judge(m, got, i0, seq, vol):
    if isinstance(got, Err):
        return str(got)
    want, card = i0, None
    for j, (i, dens, scale, c) in enumerate(got):
        i, dens, scale, c = float(i), float(dens), float(scale), int(c)
        if j:
            step = STEPS[seq[j - 1]]
            if step[2] and c != card + step[2](m):
                return '%d events after step %d, required %d' % (
                    c, j, card + step[2](m))
            want = step[1](want, card, c, m)
        if not near(i, want):
            return 'intensity %s after step %d, required %s' % (i, j, want)
        if not near(dens, want / vol):
            return 'density %s after step %d, required %s' % (
                dens, j, want / vol)
        if want > 1e-6 and not near(scale, (vol / want)**0.5):
            return 'length scale %s after step %d, required %s' % (
                scale, j, (vol / want)**0.5)
        card = c
    return None


# -------------------------------------------------------------- rejection
def rejected(ctx):
    for what, call, sym, vals in (
            ('sprinkle', 'C.sprinkle(k, rng)', 'k', (-3, -1)),
            ('intensify', 'C.intensify(i, rng)', 'i', (-2.0, -0.5)),
            ('sprinkle', 'C.sprinkle(k)', 'k', (-3, -1)),
            ('intensify', 'C.intensify(i)', 'i', (-2.0, -0.5)),
            ('__init__', 'SprinkledCauset(intensity=i, shape=S)', 'i',
             (-1.0,))):
        def models():
            for v in vals:
                m = Model({'i': v, 'k': v, 'X': rows(random.Random(1), 3, 2),
                           'rng': Obj('rng', 'rng')}, {},
                          '%s = %s' % (sym, v))
                m.draws = Draws(1)
                yield m
        src = 'def entry(X, k, i, rng):\n    S = CoordinateShape(2, ' \
            '"cuboid", edges=[1.5, 3.0])\n    C = SprinkledCauset(shape=S)' \
            '\n    C.create(X)\n    r = "accepted"\n    try:\n        %s\n' \
            '    except ValueError:\n        r = "rejected"\n    return ' \
            'C.Intensity, C.Card, C.Density, r == "rejected"\n' % call
        ctx.decide('negative argument of ' + call,
                   'negative counts and intensities raise a ValueError '
                   'without changing anything',
                   ['SprinkledCauset.' + what],
                   lambda: ctx.client(src, [X, K, I, RNG],
                                      overrides=NO_RELATIONS),
                   models, lambda m: (3, 3, 3 / 4.5, True), cmp=near)


NOTE = (
    'Density, length scale and intensity are reduced to value graphs over '
    'the shape parameters, coordinate lists, counts and intensities, for '
    'every shape and dimension and for every history of up to two (thorough '
    '(three)) creating, sprinkling, adding and discarding steps with a query '
    'after every step; the graphs are compared with the definition for '
    'arbitrary draws of the random generator.')
