"""C17: volume, limits, extent and outline of every shape."""
import itertools

from ..core import Ctx
from ..interp import Err, Unk
from ..shapes import (shapes, Shape, PARAMS, NAMES, volume, half, limits,
                      close, patch_apps, outline, outline_ok)

Q = ['CoordinateShape.__init__']


def run(ctx):
    n = 24 if ctx.thorough else 6
    dims = range(1, 9 if ctx.thorough else 6)
    for s in shapes(dims):
        tag = '%s, %dD%s' % (s.name, s.dim, ', ' + '+'.join(s.given)
                             if s.given else ', defaults')
        ctx.decide(
            'volume: ' + tag, 'Volume is the volume of the shape without its '
            'hollow interior, on the first and every later request',
            ['CoordinateShape.Volume'],
            lambda: s.build(ctx, 'a = S.Volume\nreturn a, S.Volume'),
            lambda: s.models(n),
            lambda m: (volume(s, m.val), volume(s, m.val)), cmp=rel)
        ctx.decide(
            'limits: ' + tag, 'Limits(i) is the center minus and plus half '
            'of the extent in dimension i', ['CoordinateShape.Limits'],
            lambda: s.build(ctx, 'return %s' % ''.join(
                'S.Limits(%d), ' % i for i in range(s.dim))),
            lambda: s.models(n),
            lambda m: tuple(limits(s, m.val, i) for i in range(s.dim)),
            cmp=close)
        if len(s.given) != 1:
            for i in (-1, s.dim):
                ctx.decide(
                    'limits: %s, dimension %d' % (tag, i),
                    'a dimension out of range raises ValueError',
                    ['CoordinateShape.Limits'],
                    lambda: s.build(ctx, 'return S.Limits(%d)' % i),
                    lambda: s.models(2), lambda m: Err('ValueError'),
                    cmp=close)
        if s.dim > 4 or len(s.given) == 1 and s.given != ('duration',):
            continue
        ex = [ds for k in (1, 2, 3)
              for ds in itertools.permutations(range(s.dim), k)
              if ds != (0,)]
        if not ex:
            continue
        ctx.decide(
            'extent: ' + tag, 'MaxEdgeHalf(dims) is the largest half extent '
            'of the given dimensions', ['CoordinateShape.MaxEdgeHalf'],
            lambda: s.build(ctx, 'return %s' % ''.join(
                'S.MaxEdgeHalf(%s), ' % list(ds) for ds in ex)),
            lambda: s.models(n),
            lambda m: tuple(max(half(s, m.val, i) for i in ds)
                            for ds in ex), cmp=close)
    for s in outlines(ctx):
        tag = '%s, %dD%s' % (s.name, s.dim, ', ' + '+'.join(s.given)
                             if s.given else ', defaults')
        for k in (2, 3):
            for ds in itertools.permutations(range(s.dim), k):
                if s.dim > 3 and k == 3 and ds[0] > ds[1]:
                    continue
                decide_outline(ctx, s, tag, ds, n)
    return ctx.finish(NOTE, 100)


def outlines(ctx):
    for name in NAMES:
        if name == 'diamond':
            continue
        for d in (2, 3, 4):
            yield Shape(name, d, PARAMS[name] + ('center',))
            if d == 3:
                yield Shape(name, d, ())


def decide_outline(ctx, s, tag, ds, n):
    def fn():
        r = s.build(ctx, 'return S.plot(%s)' % list(ds))
        for m in s.models(min(n, 8)):
            patch_apps(m)
            from ..interp import Interp
            try:
                got = Interp(m).outcome(r.outcome)
            except Unk as e:
                yield 'unk', 'value not known: %s' % e
                continue
            if isinstance(got, Err):
                yield 'bad', 'case: %s: plot(%s) %s' % (m.desc, list(ds), got)
                continue
            P = outline(got)
            if P is None:
                yield 'unk', 'no outline'
                continue
            why = outline_ok(s, m.val, ds, P)
            if why:
                yield 'bad', 'case: %s: plot(%s): %s' % (m.desc, list(ds),
                                                         why)
            else:
                yield 'ok', None
    ctx.obligation('outline: %s, plot(%s)' % (tag, list(ds)),
                   'the plotted outline spans exactly the limits of the '
                   'plotted dimensions and the hollow interior',
                   ['CoordinateShape.plot'], fn)


def rel(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(rel(x, y) for x, y in zip(a, b))
    try:
        return abs(float(a) - b) <= 5e-5 * max(abs(b), 1e-3)
    except (TypeError, ValueError):
        return False


NOTE = (
    'The constructor followed by the query is reduced to one gated value '
    'graph per shape name, dimension and set of given arguments; it is '
    'compared with the reference formula by random interpretation of the '
    'symbolic parameters (hollow fraction zero and non-zero). For plots the '
    'graph of the returned patch or surface is compared with the limits of '
    'the plotted dimensions for every ordered choice of axes.')
