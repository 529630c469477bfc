"""C22: plot options."""
import itertools
import random

import numpy as np

from .. import terms as t
from ..colours import valid
from ..core import Skip
from ..evalr import Star, ext
from ..interp import Bag, Err, FDict, Interp, Model, Unk
from ..orders import orders, model
from ..roles import _field, link_contracts

MODULES = ('colorschemes', 'causetplotting')
K, K2 = t.sym('K', 'dict'), t.sym('K2', 'dict')
T = t.sym('T', 'list:num')
F, N, V, Q = (t.sym('f', 'any'), t.sym('n', 'int'), t.sym('v', 'num'),
              t.sym('q', 'num'))
DEPTH, AMAX, W = t.sym('depth', 'num'), t.sym('amax', 'num'), t.sym(
    'w', 'num')
a, b, c, d = [t.sym(x, 'event') for x in 'abcd']
C = t.sym('C', 'obj:EmbeddedCauset')
SHAPE = t.sym('shape', 'obj:CoordinateShape')
ERR = Err('ValueError')

COLORS = {'links': 'cs:blue', 'linksedge': 'cs:blue', 'linksface': 'cs:cyan',
          'eventsedge': 'cs:black', 'eventsface': 'cs:core',
          'conesedge': 'cs:yellow', 'conesface': 'cs:yellow'}
ON = ('links', 'events', 'labels')
CONES = ('pastcones', 'futurecones')
ELEMENTS = CONES + ON
NOTE = ('One value graph of the plotting functions is built for a symbolic '
        'option dictionary, symbolic times and events; it is compared with '
        'the documented options for every option value of a table (every '
        'option alone and in random combinations), every causal order of '
        'the plotted events and every plot direction. matplotlib is an '
        'external effect: the drawn objects are the arguments passed to the '
        'axes and to the cone plotters.')


def defaults(elem, is3d, col):
    if elem in CONES:
        if is3d:
            return {'edgecolor': 'none', 'color': col['conesface'],
                    'alpha': 0.1}
        return {'edgecolor': col['conesedge'], 'facecolor': 'none',
                'alpha': 0.1}
    if elem == 'links':
        return {'linewidth': 2.0, 'linestyle': '-', 'markevery': (),
                'color': col['links'], 'marker': 'o', 'markersize': 5.0,
                'markeredgecolor': col['linksedge'],
                'markerfacecolor': col['linksface']}
    if elem == 'events':
        return {'linewidth': 2.0, 'linestyle': '', 'marker': 'o',
                'markersize': 7.0, 'markeredgecolor': col['eventsedge'],
                'markerfacecolor': col['eventsface']}
    return {'verticalalignment': 'top', 'horizontalalignment': 'right'}


class Options:
    """The documented meaning of an option dictionary."""

    def __init__(self, k, scheme, col=COLORS):
        self.k = k
        self.dims = tuple(k.get('dims', (1, 0)))
        self.is3d = len(self.dims) == 3
        self.valid = len(self.dims) in (2, 3)
        self.elem = {}
        self.free = {}
        for e in ELEMENTS:
            v = k.get(e, e in ON)
            if v is False:
                continue
            d = defaults(e, self.is3d, col)
            if v is not True:
                d.update(v)
            self.elem[e] = {x: scheme[y[3:]] if isinstance(y, str) and
                            y.startswith('cs:') else y for x, y in d.items()}
        if k.get('linkgapsize', 0.0) > 0.0 and 'links' in self.elem:
            for x in ('markersize', 'markeredgecolor', 'markerfacecolor'):
                self.elem['links'].pop(x, None)

    @property
    def dynamic(self):
        return 'timedepth' in self.k


def fade(kind, dim, depth, amax, v):
    """Documented opacity at distance v (None: not specified)"""
    if depth * v < 0:
        return 0.0
    if kind == 'linear':
        if depth == 0:
            return None
        return amax * (1.0 - v / depth)
    if kind == 'intensity':
        return amax / (max(v, 0.0) + 1.0)**(dim - 1)
    return None


# ------------------------------------------------------------------ options
DIMS = (None, (1, 0), (0, 1), (2, 1), (0, 1, 2), (1, 2, 0), (2, 0, 1),
        (1, 2, 3))
BADDIMS = ((), (1,), (0, 1, 2, 3))
VALUES = {
    'dims': DIMS,
    'axislim': (None, FDict({'xlim': (-1.0, 1.5), 'ylim': (0.25, 2.0)}),
                FDict({'xlim': (-3.0, 1.5), 'ylim': (0.5, 2.0),
                       'zlim': (-1.0, 4.0)})),
    'aspect': (None, ('auto', 'datalim')),
    'timedepth': (None, 1.25, -2.0),
    'timefade': (None, 'linear', 'exponential', 'intensity'),
    'conetimefade': (None, '', 'linear', 'exponential', 'intensity'),
    'conetimedepth': (None, 0.0, 1.5, -2.5),
    'linkgapsize': (None, 0.0, 3.0),
    'links': (None, True, False, FDict({'linewidth': 0.5}),
              FDict({'color': 'cs:lime', 'marker': '', 'zorder': 3})),
    'events': (None, True, False, FDict({'alpha': 0.5}),
               FDict({'markerfacecolor': 'cs:red', 'markersize': 1.0})),
    'labels': (None, True, False, FDict({'fontsize': 8, 'color': 'cs:core'})),
    'pastcones': (None, True, False, FDict({'alpha': 0.75}),
                  FDict({'facecolor': 'cs:pink', 'linewidth': 2.0})),
    'futurecones': (None, True, False, FDict({'edgecolor': 'cs:green'}),
                    FDict({'alpha': 0.6, 'hatch': '/'})),
}


def combos(n, seed, keys=None, base=({}, {'dims': (0, 1, 2)},
                                     {'timedepth': 1.25})):
    keys = list(keys or VALUES)
    seen = set()

    def clean(k):
        k = {x: y for x, y in k.items() if y is not None}
        if 'timedepth' not in k:
            k.pop('timefade', None)
        if k.get('conetimefade') in ('linear', 'exponential') and \
                not k.get('conetimedepth'):
            k['conetimedepth'] = 2.0
        s = tuple(sorted((x, repr(y)) for x, y in k.items()))
        if s in seen:
            return None
        seen.add(s)
        return FDict(k)
    rng = random.Random(seed)

    def gen():
        for d in base:
            for x in keys:
                for v in VALUES[x]:
                    yield dict(d, **{x: v})
        for i in range(n):
            yield {x: rng.choice(VALUES[x]) for x in keys}
    for k in gen():
        k = clean(k)
        if k is not None:
            yield k


# --------------------------------------------------------------------- run
def run(ctx):
    S = schemes(ctx)
    if S is not None:
        parameters(ctx, S)
        default_colors(ctx, S)
    fading(ctx)
    if S is not None:
        plots(ctx, S)
    return ctx.finish(NOTE, 10)


def schemes(ctx):
    ev = ctx.evaluator()
    ev.modules = MODULES
    r = ctx.client('def entry():\n    return colorschemes.ColorSchemes\n',
                   [], ev=ev)
    try:
        v = Interp(Model({}, {}, '')).outcome(r.outcome)
    except Unk:
        v = None
    if isinstance(v, dict) and 'matplotlib' in v:
        return v
    ctx.obligation('colour schemes', 'known after the import',
                   ['colorschemes:pickColorScheme'],
                   lambda: iter([('unk', 'the table is not known')]))
    return None


def shape_overrides():
    def limits(ev, args, kwargs, st, fr):
        return t.app('limits', ev.resolve(ev.deref(
            (list(args) + list(kwargs.values()))[-1], st), st), sort='any')

    def edge(ev, args, kwargs, st, fr):
        return t.app('edgehalf', ev.resolve(ev.deref(
            (list(args) + list(kwargs.values()))[-1], st), st), sort='num')
    return {'CoordinateShape.Limits': limits,
            'CoordinateShape.MaxEdgeHalf': edge,
            'CoordinateShape.Center': lambda ev, args, kwargs, st, fr:
            t.app('center', sort='array')}


CENTER = (0.5, -1.25, 2.0, 0.75)
LIMITS = ((0.25, 0.75), (-2.0, -0.5), (1.0, 3.0), (-0.5, 2.0))


def edgehalf(dims):
    return max((LIMITS[d][1] - LIMITS[d][0]) / 2 for d in dims)


def with_shape(m):
    m.apps['limits'] = lambda d: LIMITS[d]
    m.apps['edgehalf'] = lambda d: edgehalf(tuple(d))
    m.apps['center'] = lambda: np.array(CENTER)
    return m


def shape_axes(dims):
    if len(dims) == 2:
        return {'xlim': LIMITS[dims[0]], 'ylim': LIMITS[dims[1]]}
    e = edgehalf(dims)
    return {n: (CENTER[d] - e, CENTER[d] + e)
            for n, d in zip(('xlim', 'ylim', 'zlim'), dims)}


def plain(v):
    if isinstance(v, np.ndarray):
        return tuple(plain(x) for x in v.tolist())
    if isinstance(v, (tuple, list)):
        return tuple(plain(x) for x in v)
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def close(x, y):
    x, y = plain(x), plain(y)
    if isinstance(x, bool) or isinstance(y, bool):
        return x is y or x == y
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return abs(x - y) <= 1e-9 * (1.0 + abs(x) + abs(y))
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(map(close, x, y))
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(close(x[k], y[k]) for k in x)
    return type(x) is type(y) and x == y


def includes(got, want):
    """every entry of want is in got with that value"""
    return isinstance(got, dict) and all(
        k in got and close(got[k], v) for k, v in want.items())


# -------------------------------------------------------------- parameters
DOCUMENTED = ('dims', 'axislim', 'aspect', 'timedepth', 'timefade',
              'conetimefade', 'conetimedepth')


def parameters_ok(got, o):
    if not o.valid:
        return got == ERR
    if not isinstance(got, dict):
        return False
    want = {'dims': o.dims, 'aspect': ('equal', 'box'),
            'conetimefade': 'intensity', 'conetimedepth': 0.0}
    if o.dynamic:
        want['timefade'] = 'linear'
    want.update({x: y for x, y in o.k.items() if x in DOCUMENTED})
    if want.get('axislim') == 'shape':
        want['axislim'] = shape_axes(o.dims)
    if not includes(got, want):
        return False
    for x in DOCUMENTED:
        if x not in want and got.get(x) is not None and not (
                x == 'timefade' or x == 'axislim' and 'shape' in o.k):
            return False
    for e in ELEMENTS:
        if e in o.elem:
            if not includes(got.get(e), o.elem[e]):
                return False
        elif got.get(e):
            return False
    return True


class Want:
    def __init__(self, o):
        self.o = o

    def __repr__(self):
        o = self.o
        if not o.valid:
            return 'ValueError'
        return 'documented options with %s' % '; '.join(
            '%s: %s' % (e, d) for e, d in o.elem.items())


def parameters(ctx, S):
    q = ['causetplotting:plot_parameters']
    rule = 'user options override the documented defaults, an element that ' \
        'is switched off is omitted, colours are those of the scheme'

    def build(src, args, ov=None):
        def f():
            ev = ctx.evaluator(ov)
            ev.modules = MODULES
            return ctx.client(src, args, ev=ev)
        return f

    def models(seed, n=300, extra=()):
        def gen():
            for k in itertools.chain(combos(n * (5 if ctx.thorough else 1),
                                            seed),
                                     (FDict(x) for x in extra)):
                m = Model({'K': k}, {}, 'options %r' % dict(k))
                m.opts = Options(k, S['matplotlib'])
                yield m
        return gen

    def spec(m):
        return Want(m.opts)

    def cmp(got, want):
        return parameters_ok(got, want.o)
    ctx.decide('plot_parameters(**K)', rule, q, build(
        'def entry(K):\n    return causetplotting.plot_parameters(**K)\n',
        [K]), models(1, extra=[{'dims': d} for d in BADDIMS]), spec, cmp)
    # a call does not change the defaults of the next one
    ctx.decide('plot_parameters(**K) after plot_parameters(links={...}, ...)',
               rule, q, build(
                   'def entry(K):\n    causetplotting.plot_parameters('
                   'links={"linewidth": 7.0, "color": "black"}, '
                   'events={"markersize": 1.5}, labels={"color": "red"}, '
                   'pastcones={"alpha": 0.9}, futurecones={"alpha": 0.8}, '
                   'dims=[0, 1, 2], aspect=["auto", "box"], timedepth=3.0)\n'
                   '    return causetplotting.plot_parameters(**K)\n', [K]),
               models(2, 60), spec, cmp)

    # axis limits of a shape
    def limits():
        for d in DIMS:
            for ax in ('shape', None) + VALUES['axislim'][1:]:
                k = FDict({x: y for x, y in (('dims', d), ('axislim', ax))
                           if y is not None})
                m = with_shape(Model({'K': k}, {}, 'options %r and a shape'
                                     % dict(k)))
                k = FDict(k, shape=True)
                m.opts = Options(k, S['matplotlib'])
                yield m
    ctx.decide('plot_parameters(shape=shape, **K)', 'the limits "shape" are '
               'the limits of the shape (a centred cube for three '
               'dimensions)', q, build(
                   'def entry(K, shape):\n    return causetplotting.'
                   'plot_parameters(shape=shape, **K)\n', [K, SHAPE],
                   shape_overrides()), limits, spec, cmp)

    # user dictionaries are not changed
    for e in ELEMENTS:
        for fn in ('plot_parameters(', 'Plotter([a], ax, st, '):
            pl = fn.startswith('Plotter')
            ctx.decide('the dictionary of %s after %s%s=D)' % (e, fn, e),
                       'a dictionary given by the user is left unchanged',
                       q + ['causetplotting:Plotter'] * pl, build(
                           'def entry(K, a, st, ax):\n    D = dict(K)\n'
                           '    causetplotting.%s%s=D)\n    return D\n' % (
                               fn, e), [K, a, ext('ST'), ext('AX')],
                           dict(link_contracts(ctx), **dict(
                               axes_overrides(), **cone_overrides('ST')))),
                       (Model({'K': FDict(x)}, {}, '%s = %r' % (e, x))
                        for x in ({'color': 'cs:lime'}, {'zorder': 2},
                                  {'alpha': 0.5, 'color': 'red'})),
                       lambda m: m.syms['K'], close)


def default_colors(ctx, S):
    q = ['causetplotting:setDefaultColors', 'causetplotting:plot_parameters']
    K0 = t.sym('C', 'dict')

    def build():
        ev = ctx.evaluator()
        ev.modules = MODULES
        return ctx.client(
            'def entry(s, C, K):\n    causetplotting.setDefaultColors(s, '
            '**C)\n    return causetplotting.plot_parameters(**K)\n',
            [t.sym('s', 'any'), K0, K], ev=ev)

    def models():
        cols = [{}] + [{x: 'cs:orange'} for x in COLORS] + [
            {x: 'cs:' + y for x, y in zip(COLORS, (
                'pink', 'lime', 'red', 'gray', 'white', 'core', 'purple'))}]
        for s in list(S) + ['unknown']:
            for col in cols:
                for k in ({}, {'pastcones': True, 'futurecones': True},
                          {'dims': (0, 1, 2), 'futurecones': True,
                           'pastcones': FDict({'alpha': 0.5})},
                          {'links': FDict({'color': 'cs:red'}),
                           'events': False}):
                    m = Model({'s': s, 'C': FDict(col), 'K': FDict(k)}, {},
                              'scheme %r, colours %r, options %r' % (
                                  s, col, k))
                    m.opts = s in S and Options(
                        k, S[s], dict(COLORS, **col))
                    yield m
    ctx.decide('plot_parameters(**K) after setDefaultColors(s, **C)',
               'the default colours are those set, of the selected scheme',
               q, build, models, lambda m: Want(m.opts) if m.opts else ERR,
               lambda g, w: g == ERR if w == ERR else parameters_ok(g, w.o))


# ------------------------------------------------------------------ fading
def fading(ctx):
    q = ['causetplotting:dynamic_parameter']

    def term(src, *args):
        def f():
            ev = ctx.evaluator()
            ev.modules = MODULES
            return ctx.client(src, args, ev=ev)
        return f
    one = 'def entry(f, n, depth, amax, v):\n    return causetplotting.' \
        'dynamic_parameter(f, n, depth, amax)(v)\n'
    args = (F, N, DEPTH, AMAX, V)

    def models(kinds):
        for kind in kinds:
            for dim in (2, 3):
                for depth in (0.5, 2.0, 7.25, -0.75, -3.0) + (
                        (0.0,) if kind == 'intensity' else ()):
                    for amax in (1.0, 0.1, 2.5):
                        for v in (0.0, 0.125, 0.4, 1.0, 3.5, -0.125, -0.4,
                                  -1.0, -3.5):
                            yield Model({'f': kind, 'n': dim, 'depth': depth,
                                         'amax': amax, 'v': v}, {},
                                        '%s, dim %d, depth %s, maximum %s, '
                                        'value %s' % (kind, dim, depth, amax,
                                                      v))

    def want(m):
        s = m.syms
        return fade(s['f'], s['n'], s['depth'], s['amax'], s['v'])
    ctx.decide('dynamic_parameter(f, n, depth, amax)(v)', 'objects on the '
               'other side of the time slice are not visible, linear fading '
               'scales to 0 at the depth, intensity fading with the power '
               'of the space dimension', q, term(one, *args),
               lambda: models(('linear', 'intensity')), want, close)

    def hidden(m):
        if m.syms['depth'] * m.syms['v'] >= 0:
            raise Skip()
        return 0.0
    ctx.decide('exponential fading on the other side', 'not visible', q,
               term(one, *args), lambda: models(('exponential',)), hidden,
               close)

    def start(m):
        if m.syms['v'] != 0.0:
            raise Skip()
        return m.syms['amax']
    ctx.decide('exponential fading at 0', 'the maximal value', q,
               term(one, *args), lambda: models(('exponential',)), start,
               close)
    two = 'def entry(f, n, depth, amax, v, w):\n    g = causetplotting.' \
        'dynamic_parameter(f, n, depth, amax)\n    return (g(v) * g(w), ' \
        'amax * g(v + w), g(v), g(depth), g(2.0 * depth))\n'

    def pairs():
        for m in models(('exponential',)):
            if m.syms['v'] * m.syms['depth'] <= 0:
                continue
            for w in (0.25, 1.5):
                s = dict(m.syms, w=w if m.syms['depth'] > 0 else -w)
                yield Model(s, {}, m.desc + ' and %s' % s['w'])

    def scaling(got, w):
        if not isinstance(got, tuple) or len(got) != 5:
            return False
        x, y, g, d, d2 = got
        amax = w['amax']
        return close(x, y) and 0.0 < g < amax and close(d * d, amax * d2) \
            and 0.2 * amax < d < 0.9 * amax
    ctx.decide('exponential fading', 'decays exponentially with the time '
               'depth', q, term(two, *(args + (W,))), pairs,
               lambda m: m.syms, scaling)


# ------------------------------------------------------------------- plots
def drawn(name, more=None):
    def f(ev, args, kwargs, st, fr):
        kw = dict(kwargs)
        star = kw.pop('**', None)

        def res(x):
            return ev.resolve(ev.deref(x, st), st)
        if any(isinstance(x, Star) for x in args):
            pos = t.app('star', *[res(x.t if isinstance(x, Star) else
                                      t.lst(x)) for x in args])
        else:
            pos = t.lst(*[res(x) for x in args])
        d = res(star) if star is not None else t.raw('dict', sort='dict')
        for k, x in sorted(kw.items()):
            d = t.raw('dstore', d, t.const(k), res(x), sort='dict')
        return t.app('drawn', t.const(name), pos, d,
                     *(more() if more else ()), sort='any')
    return f


def cone_overrides(cls):
    """The cone plotters return recorded cones with their options."""
    seen = {}

    def plotter(ev, args, kwargs, st, fr):
        kw = dict(kwargs)
        args = [x for x in args]
        names = ['dims', 'plotting_params', 'timesign', 'axes',
                 'dynamicAlpha', 'samplingsize']
        if args and cls != 'ST':
            args = args[1:]
        for nm, x in zip(names, args):
            kw[nm] = x

        def res(x):
            return ev.resolve(ev.deref(x, st), st)
        sign = t.cval(kw.get('timesign', t.const(1)))
        name = 'PCONE' if sign < 0 else 'FCONE'
        dyn = kw.get('dynamicAlpha', t.NONE)
        dyn = res(dyn)
        s2 = st.copy()
        isnone = t.is_(dyn, t.NONE)
        r = ev.call_closure(dyn, [Q], s2)
        seen[name] = (res(kw['dims']), res(kw['plotting_params']), isnone,
                      t.ite(isnone, t.NONE, r.value))
        return ext(name)
    ov = {cls + '.ConePlotter': plotter}
    for name in ('PCONE', 'FCONE'):
        ov[name] = drawn(name, lambda name=name: seen[name])
    return ov


SETTERS = ('set', 'set_aspect', 'set_xlim', 'set_ylim', 'set_zlim')


def axes_overrides():
    """Drawn objects are values, settings are kept in a log."""
    def setter(name):
        make = drawn(name)

        def f(ev, args, kwargs, st, fr):
            d = make(ev, args, kwargs, st, fr)
            h = ev.hmap(st, 'axes:log')
            st.heap['axes:log'] = t.store(h, t.NONE, t.add(
                t.sel(h, t.NONE, 'list'), t.lst(d)))
            return t.NONE
        return f
    ov = {'AX.' + n: drawn(n) for n in ('plot', 'text')}
    ov.update(('AX.' + n, setter(n)) for n in SETTERS)
    ov['AX.set_axis_off'] = lambda ev, args, kwargs, st, fr: t.NONE
    ov['AX.log'] = lambda ev, args, kwargs, st, fr: t.sel(
        ev.hmap(st, 'axes:log'), t.NONE, 'list')
    return ov


def axes_settings(log):
    out = {}
    for name, args, kw in log:
        if name == 'set':
            out.update(kw)
        elif name == 'set_aspect':
            out['aspect'] = args
        elif name in SETTERS:
            out[name[4:]] = args[0] if len(args) == 1 else args
    return out


COORD = {}
rng = random.Random(5)
for _i in range(6):
    COORD[_i] = tuple(rng.uniform(-2.0, 2.0) for _ in range(4))
    # causally increasing in the time
TIMES = ((0.3, 0.9), (-0.75, 0.25), (0.5,), (0.1, -0.2))


def coordinates(o, variant=0):
    """Coordinates of the events, times increase along the order"""
    E = sorted(o.E, key=lambda e: (len(o.past[e]), e.n))
    out = {}
    for i, e in enumerate(E):
        x = list(COORD[(e.n + variant) % 6])
        x[0] = -0.9 + 0.85 * i + 0.11 * x[1]
        out[e] = tuple(x)
    if variant == 3 and len(E) > 2:
        # all on a line
        x, y = out[E[0]], out[E[-1]]
        for i, e in enumerate(E[1:-1]):
            # not in the order of the list
            f = (0.6, 0.25, 0.4)[i]
            out[e] = tuple(u + f * (v - u) for u, v in zip(x, y))
    return out


def event_orders(nmax):
    for o in orders(nmax):
        if len(o.E) == nmax:
            yield o


class Plot:
    """What has to be drawn"""

    def __init__(self, m, S, events, coord, opts, time):
        self.o, self.events, self.coord = m.o, events, coord
        self.opts, self.time, self.reason = opts, time, None

    def __repr__(self):
        return 'handles %s (%s)' % (sorted(self.opts.elem), self.reason)

    def at(self, e):
        return tuple(self.coord[e][d] for d in self.opts.dims)


def handle_list(h):
    return [x for x in h if x is not None] if isinstance(h, tuple) else None


def check_plot(got, w):
    """None if fine, otherwise a text"""
    p = w.opts
    if not p.valid:
        return None if got == ERR else 'no ValueError'
    if isinstance(got, Err):
        return repr(got)
    if not isinstance(got, tuple) or len(got) != 2 or \
            not isinstance(got[0], dict):
        return 'no dictionary of handles'
    got, log = got
    s = axes_settings(log)
    lim = p.k.get('axislim', {})
    if lim == 'shape':
        lim = shape_axes(p.dims)
    for x in ('xlim', 'ylim', 'zlim')[:len(p.dims)]:
        if (x in lim) != (x in s) or x in lim and not close(s[x], lim[x]):
            return 'axis limits %s' % (s,)
    if not p.is3d and not close(s.get('aspect'), p.k.get(
            'aspect', ('equal', 'box'))):
        return 'aspect %s' % (s.get('aspect'),)
    if set(got) != set(p.elem):
        return 'handles for %s' % sorted(got)
    for e in ELEMENTS:
        if e in p.elem:
            h = handle_list(got[e])
            if h is None or not all(isinstance(x, tuple) for x in h):
                return 'handles of %s: %r' % (e, got[e])
            r = PARTS[e](h, w, p)
            if r:
                return e + ': ' + r
    return None


def partly(xs, ys, same):
    """Like multiset, None in ys stands for at most one unknown element."""
    left = [y for y in ys if y is not None]
    free = len(ys) - len(left)
    for x in xs:
        for i, y in enumerate(left):
            if same(x, y):
                del left[i]
                break
        else:
            free -= 1
    return not left and free >= 0


def multiset(xs, ys, same):
    left = list(ys)
    for x in xs:
        for i, y in enumerate(left):
            if same(x, y):
                del left[i]
                break
        else:
            return False
    return not left


def visible(w, p, e):
    """documented opacity of an event in a dynamic plot (None if only known
    to be positive)"""
    kind = p.k.get('timefade', 'linear')
    amax = 1.0
    if isinstance(p.elem.get('events'), dict):
        amax = p.elem['events'].get('alpha', 1.0)
    v = w.coord[e][0] - w.time[0]
    depth = p.k['timedepth']
    if depth * v < 0:
        return 0.0
    f = fade(kind, 3 if p.is3d else 2, depth, amax, v)
    return None if f is None else max(f, 0.0)


def check_cones(h, w, p, name):
    past = name == 'PCONE'
    elem = 'pastcones' if past else 'futurecones'
    time = w.time[0] if past else w.time[-1]
    if any(x[0] != name for x in h):
        return 'wrong cones'
    if not multiset([x[1] for x in h], [(w.coord[e][:w.n], time) for e in
                                        w.events], close):
        return 'cones at %s' % ([x[1] for x in h],)
    for x in h:
        dims, props, isnone, alpha = x[3:]
        if not close(dims, p.dims):
            return 'dimensions %s' % (dims,)
        if not includes(props, p.elem[elem]):
            return 'options %s' % (props,)
        kind = p.k.get('conetimefade', 'intensity')
        if isnone != (kind == ''):
            return 'fading %s although %r' % (not isnone, kind)
        if kind != '':
            f = fade(kind, 3 if p.is3d else 2,
                     abs(p.k.get('conetimedepth', 0.0)),
                     p.elem[elem].get('alpha', 1.0), w.q)
            if f is not None and not close(f, alpha):
                return 'opacity %s' % (alpha,)
            if f is None and not 0.0 < alpha < p.elem[elem].get('alpha', 1.0):
                return 'opacity %s' % (alpha,)
    return None


def check_events(h, w, p):
    evs = list(w.events)
    if p.dynamic:
        evs = [e for e in evs if visible(w, p, e) != 0.0]
    if any(x[0] != 'plot' for x in h):
        return 'not drawn by plot'

    def same(x, e):
        props = dict(p.elem['events'])
        if p.dynamic:
            props.pop('alpha', None)
            f = visible(w, p, e)
            if f is not None:
                props['alpha'] = f
        return close(x[1], tuple((y,) for y in w.at(e))) and \
            includes(x[2], props)
    if not multiset(h, evs, same):
        return 'drawn %s' % (h,)
    return None


def check_labels(h, w, p):
    evs = list(w.events)
    if p.dynamic:
        evs = [e for e in evs if visible(w, p, e) != 0.0]

    def same(x, e):
        return x[0] == 'text' and len(x[1]) == len(p.dims) + 1 and \
            close(x[1][:-1], w.at(e)) and isinstance(x[1][-1], str) and \
            x[1][-1].strip() == w.labels[e] and \
            includes(x[2], p.elem['labels'])
    if not multiset(h, evs, same):
        return 'drawn %s' % (h,)
    return None


def ends(x):
    """the end points of a drawn line"""
    pts = list(zip(*x[1]))
    if len(pts) < 2 or len(set(map(len, x[1]))) > 1:
        return None
    # further points mark gaps: they divide the line
    u, v = np.array(pts[0]), np.array(pts[-1])
    last = 0.0
    for p in pts[1:-1]:
        f = np.dot(np.array(p) - u, v - u) / np.dot(v - u, v - u)
        if not close(u + f * (v - u), p) or f < last or f > 1.0:
            return None
        last = f
    return pts[0], pts[-1]


def check_links(h, w, p):
    evs = list(w.events)
    pairs = [(x, y) for x, y in itertools.combinations(evs, 2)
             if y in w.o.lpast[x] or y in w.o.lfuture[x]]
    props = dict(p.elem['links'])
    props.pop('markevery', None)
    if p.dynamic:
        for x in ('linewidth', 'alpha'):
            props.pop(x, None)
    for x in h:
        if x[0] != 'plot' or ends(x) is None:
            return 'drawn %s' % (x,)
        if not includes(x[2], props):
            return 'options %s' % (x[2],)
    if not p.dynamic:
        def same(x, e):
            u, v = ends(x)
            return any(close(u, w.at(e[i])) and close(v, w.at(e[1 - i]))
                       for i in (0, 1))
        if not multiset(h, pairs, same):
            return 'drawn %s' % (h,)
        return None
    # dynamic: the visible part of the segment between the events
    want = []
    for x, y in pairs:
        vx, vy = visible(w, p, x), visible(w, p, y)
        if vx != 0.0 and vy != 0.0:
            want.append((w.at(x), w.at(y)))
        elif vx == 0.0 and vy == 0.0:
            continue
        else:
            if vx == 0.0:
                x, y = y, x     # x is visible
            tx, ty = (w.coord[e][0] - w.time[0] for e in (x, y))
            if tx * ty < 0:
                s = tx / (tx - ty)
                want.append((w.at(x), tuple(
                    u + s * (v - u) for u, v in zip(w.at(x), w.at(y)))))
            # otherwise: not specified
            else:
                want.append(None)

    def same(x, e):
        u, v = ends(x)
        return close((u, v), e) or close((v, u), e)
    if not partly(h, want, same):
        return 'drawn %s' % (h,)
    return None


PARTS = {'pastcones': lambda h, w, p: check_cones(h, w, p, 'PCONE'),
         'futurecones': lambda h, w, p: check_cones(h, w, p, 'FCONE'),
         'links': check_links, 'events': check_events,
         'labels': check_labels}


def field_name(ctx, prop, default):
    ev = ctx.evaluator()
    try:
        f = _field(ev.run(ctx.prog.func('CausetEvent.' + prop),
                          [t.sym('e', 'event')]).value)
    except Exception:
        f = None
    return f or default


def plots(ctx, S):
    q = ['causetplotting:Plotter', 'causetplotting:plot_parameters',
         'causetplotting:dynamic_parameter']
    rule = 'the handles contain exactly the elements that are switched on; ' \
        'events, labels and links are drawn at the coordinates along the ' \
        'chosen dimensions, cones at the time slices, with the documented ' \
        'options'
    fc = field_name(ctx, 'Coordinates', '_coordinates')
    fp = field_name(ctx, 'Position', '_position')

    def build(src, args, st):
        def f():
            ov = dict(link_contracts(ctx))
            ov.update(axes_overrides())
            ov.update(cone_overrides('ST' if st else 'FlatSpacetime'))
            ov.update(shape_overrides())
            ov['EmbeddedCauset.Spacetime'] = lambda ev, args, kwargs, s, \
                fr: ext('ST')
            ov['Causet.__iter__'] = lambda ev, args, kwargs, s, fr: \
                t.lst(a, b)
            ov['EmbeddedCauset.Shape'] = lambda ev, args, kwargs, s, fr: \
                SHAPE
            ev = ctx.evaluator(ov)
            ev.modules = MODULES
            return ctx.client(src, args, ev=ev)
        return f
    def models(nev, n, seed, st=True, keys=None, events='abc', times=TIMES,
               used=None, shape=False):
        def gen():
            os_ = list(event_orders(nev))
            ks = combos(n * (4 if ctx.thorough else 1), seed, keys)
            i = 0
            for k in ks:
                dims = k.get('dims', (1, 0))
                if shape and 'axislim' in k:
                    k = FDict(k, axislim='shape')
                if not st and max(dims) > 1:
                    continue
                for j in range(3):
                    o = os_[i % len(os_)]
                    tm = times[(i // 3) % len(times)]
                    evs = list(itertools.permutations(o.E))[
                        i % len(list(itertools.permutations(o.E)))]
                    coord = coordinates(o, i % 5)
                    i += 1
                    syms = dict(zip(events, evs))
                    syms.update(K=k, T=tm, q=0.7)
                    m = model(o, ctx.roles, syms, C=o.all)
                    nd = 4 if st else 2
                    put(m, fc if st else fp, {
                        e: x[:nd] for e, x in coord.items()}, st)
                    m.desc = 'options %r, times %r, %s' % (
                        dict(k), tm, m.desc)
                    finish(m, Plot(m, S, evs, coord,
                                   Options(k, S['matplotlib']),
                                   used(tm) if used else tm), nd, o)
                    yield m
        return gen

    def gaps():
        i = 0
        for k in ((1, 0), (0, 1), (2, 1), (0, 1, 2), (1, 2, 0)):
            os_ = [o for o in event_orders(4) if sum(
                len(o.past[e]) for e in o.E) < 3]
            for o in os_:
                for evs in list(itertools.permutations(o.E))[::5]:
                    i += 1
                    coord = coordinates(o, 3 if i % 3 else 0)
                    m = model(o, ctx.roles, dict(
                        zip('abcd', evs), K=FDict(dims=k), T=(0.0,)),
                        C=o.all)
                    put(m, fc, coord, True)
                    finish(m, Plot(m, S, evs, coord, Options({
                        'dims': k, 'events': False, 'labels': False},
                        S['matplotlib']), (0.0,)), 4, o)
                    yield m

    def finish(m, w, nd, o):
        m.apps['drawn'] = lambda *x: tuple(x)
        m.apps['star'] = lambda *x: tuple(itertools.chain(*x))
        m.maps['axes:log'] = lambda x: ()
        with_shape(m)
        w.n, w.q, w.labels = nd, 0.7, {
            e: str(m.maps['Label'](e)) for e in o.E}
        m.want = w

    def put(m, field, coord, array):
        other = fp if field == fc else fc
        m.maps['has:' + field] = lambda e: True
        m.maps[field] = (lambda e: np.array(coord[e])) if array else \
            (lambda e: coord[e])
        m.maps['has:' + other] = lambda e: False

    def cmp(got, w):
        w.reason = check_plot(got, w)
        return w.reason is None

    def go(name, src, args, st, gen):
        ctx.decide(name, rule, q, build(src, args, st), gen,
                   lambda m: m.want, cmp)

    call = 'def entry(%s, T, K, st, ax):\n    return causetplotting.' \
        'Plotter(%s, ax, %s**K)(T), ax.log()\n'
    rest = [T, K, ext('ST'), ext('AX')]
    go('Plotter([a, b, c], ax, spacetime, **K)(T)', call % (
        'a, b, c', '[a, b, c]', 'st, '), [a, b, c] + rest, True,
       models(3, 500, 11))
    go('Plotter([a, b], ax, None, **K)(T)', call % ('a, b', '[a, b]', 'None, '),
       [a, b] + rest, False, models(2, 250, 12, st=False, events='ab'))
    go('Plotter(C, ax, **K)(T) of an EmbeddedCauset', 'def entry(C, a, b, T, '
       'K, st, ax):\n    return causetplotting.Plotter(C, ax, **K)(T), '
       'ax.log()\n', [C, a, b] + rest, True, models(
           2, 100, 14, events='ab', shape=True))
    go('Plotter([a, b, c, d], ax, spacetime, dims=D)(T)', 'def entry(a, b, c, '
       'd, T, K, st, ax):\n    D = list(K["dims"])\n    return '
       'causetplotting.Plotter([a, b, c, d], ax, st, dims=D, events=False, '
       'labels=False)(T), ax.log()\n', [a, b, c, d] + rest, True, gaps)
    for tm, what in (('T', 'list'), ('T[0]', 'number'), (None, 'default')):
        go('plot([a, b], ax, spacetime, %s**K)' % (
            'time=%s, ' % tm if tm else ''),
           'def entry(a, b, T, K, st, ax):\n    return causetplotting.plot('
           '[a, b], ax, st, %s**K), ax.log()\n' % (
               'time=%s, ' % tm if tm else ''), [a, b] + rest, True,
           models(2, 60, 15, events='ab', times=TIMES[:2],
                  used={'list': None, 'number': lambda x: (x[0], x[0]),
                        'default': lambda x: (0.0, 0.0)}[what]))
    go('plotDiagram([a, b], [], ax, **K)', 'def entry(a, b, T, K, st, ax):\n'
       '    D = dict(K)\n    D.pop("spacetime", None)\n    return '
       'causetplotting.plotDiagram([a, b], [], ax, **D), ax.log()\n', [a, b] + rest, False, models(
           2, 60, 16, st=False, events='ab', times=TIMES[:1],
           used=lambda x: (0.0, 0.0)))
    go('Plotter(a, ax, spacetime, **K)(T)', call % ('a', 'a', 'st, '),
       [a] + rest, True, models(1, 60, 13, events='a'))
