"""C21: colour schemes."""
from .. import terms as t
from ..colours import valid
from ..core import Skip
from ..interp import Err, Interp, Unk, Model, FDict

MODULES = ('colorschemes', 'causetplotting')
KEYS = ('core', 'black', 'gray', 'grey', 'white', 'purple', 'blue', 'cyan',
        'green', 'lime', 'yellow', 'orange', 'red', 'pink')
DEFAULTS = ('links', 'linksedge', 'linksface', 'eventsedge', 'eventsface',
            'conesedge', 'conesface')
SCHEMES = ('matplotlib', 'UniYork', 'ImperialLondon')
C, N, D = t.sym('c', 'any'), t.sym('s', 'any'), t.sym('d', 'dict')
L = t.sym('l', 'list:str')
PLAIN = ('red', '#123456', 'none', '', 'css:blue', 'CS:blue', 'blue', 'cs',
         'x cs:red', '0.5')


def run(ctx):
    T = table(ctx)
    if T is not None:
        defaults(ctx, T)
        lookup(ctx, T)
        convert(ctx, T)
        selected(ctx, T)
    return ctx.finish(NOTE, 12)


def client(ctx, src, args=()):
    ev = ctx.evaluator()
    ev.modules = MODULES
    return ctx.client(src, list(args), ev=ev)


def value(ctx, src):
    return Interp(Model({}, {}, '')).outcome(client(ctx, src).outcome)


def table(ctx):
    """The scheme table after the import."""
    out = []

    def fn():
        T = value(ctx, 'def entry():\n    return colorschemes.ColorSchemes\n')
        if not isinstance(T, dict) or not all(
                isinstance(x, dict) for x in T.values()):
            yield 'unk', 'the table of schemes is not known'
            return
        out.append(T)
        for s in SCHEMES:
            if s not in T:
                yield 'bad', 'there is no scheme %r' % s
        for s in T:
            for k in KEYS:
                if k not in T[s]:
                    yield 'bad', 'scheme %r has no colour %r' % (s, k)
                else:
                    yield 'ok', None
            for k, c in T[s].items():
                v = valid(c)
                if v is None:
                    yield 'unk', 'colour %r' % (c,)
                elif not v:
                    yield 'bad', 'scheme %r, key %r: %r is not a colour' % (
                        s, k, c)
                else:
                    yield 'ok', None
            if 'gray' in T[s] and T[s]['gray'] != T[s].get('grey'):
                yield 'bad', 'scheme %r: gray is %r and grey is %r' % (
                    s, T[s]['gray'], T[s].get('grey'))
    ctx.obligation('scheme table', 'every scheme defines a valid matplotlib '
                   'colour for each shared key, gray and grey alike',
                   ['colorschemes:pickColorScheme'], fn)
    return out[0] if out else None


def defaults(ctx, T):
    def fn():
        D = value(ctx, 'def entry():\n    return causetplotting.'
                  'default_colors\n')
        if not isinstance(D, dict):
            yield 'unk', 'default colours'
            return
        for k in DEFAULTS:
            if k not in D:
                yield 'bad', 'no default colour for %r' % k
        for k, c in D.items():
            if isinstance(c, str) and c.startswith('cs:'):
                for s in T:
                    if c[3:] not in T[s]:
                        yield 'bad', 'default colour %r of %r is missing ' \
                            'in scheme %r' % (c, k, s)
                    else:
                        yield 'ok', None
            elif valid(c) is False:
                yield 'bad', 'default colour %r of %r' % (c, k)
    ctx.obligation('default colours', 'every colour key that the plotting '
                   'defaults refer to is defined by every scheme',
                   ['causetplotting:setDefaultColors'], fn)


ERR = Err('ValueError')


def lookup(ctx, T):
    def models():
        for s in list(T) + ['', 'york', 'Matplotlib']:
            for c in ['cs:' + k for k in T.get(s, KEYS)] + list(PLAIN):
                m = Model({'c': c, 's': s}, {}, 'colour %r, scheme %r' % (
                    c, s))
                m.c, m.s = c, s
                yield m

    def want(m):
        if m.s not in T:
            return ERR
        return T[m.s][m.c[3:]] if m.c.startswith('cs:') else m.c
    rule = 'a scheme colour is the entry of the given scheme, any other ' \
        'string is returned unchanged, an unknown scheme raises a ValueError'
    q = ['colorschemes:getColor', 'colorschemes:pickColorScheme']
    ctx.decide('getColor(c, s)', rule, q, lambda: client(
        ctx, 'def entry(c, s):\n    return colorschemes.getColor(c, s)\n',
        [C, N]), models, want)
    # global scheme
    ctx.decide('getColor(c) after setGlobalColorScheme(s)', rule, q,
               lambda: client(
                   ctx, 'def entry(c, s):\n    colorschemes.'
                   'setGlobalColorScheme(s)\n    return colorschemes.'
                   'getColor(c)\n', [C, N]), models, want)
    ctx.decide('getColor(c) after an import', rule, q, lambda: client(
        ctx, 'def entry(c):\n    return colorschemes.getColor(c)\n', [C]),
        lambda: (m for m in models() if m.s == 'matplotlib'), want)

    def after(m):
        if m.s in T:
            raise Skip()
        return T['matplotlib'][m.c[3:]] if m.c.startswith('cs:') else m.c
    ctx.decide('getColor(c) after an unknown global scheme', rule, q,
               lambda: client(
                   ctx, 'def entry(c, s):\n    try:\n        colorschemes.'
                   'setGlobalColorScheme(s)\n    except ValueError:\n'
                   '        pass\n    return colorschemes.getColor(c)\n',
                   [C, N]), models, after)
    ctx.decide('getColor(c, s) with another global scheme', rule, q,
               lambda: client(
                   ctx, 'def entry(c, s):\n    colorschemes.'
                   'setGlobalColorScheme("UniYork")\n    return '
                   'colorschemes.getColor(c, s)\n', [C, N]), models, want)
    for f in ('pickColorScheme(s)', 'getGlobalColorScheme()'):
        pre = 'colorschemes.setGlobalColorScheme(s)\n    ' \
            if 'Global' in f else ''
        ctx.decide(f, rule, q, lambda: client(
            ctx, 'def entry(s):\n    %sreturn colorschemes.%s\n' % (pre, f),
            [N]), [Model({'s': s}, {}, 'scheme %r' % s)
                   for s in list(T) + ['', 'York']],
            lambda m: FDict(T[m.syms['s']]) if m.syms['s'] in T else ERR)


def convert(ctx, T):
    q = ['colorschemes:convertColorsInDict',
         'colorschemes:convertColorsInList']
    rule = 'every scheme colour in the collection is replaced with the ' \
        'entry of the selected scheme, every other entry is unchanged'

    def conv(s, v):
        return T[s][v[3:]] if isinstance(v, str) and v.startswith('cs:') \
            else v

    def dicts():
        base = [FDict(), FDict({'color': 'cs:blue'}),
                FDict({'color': 'cs:core', 'alpha': 0.5, 'marker': 'o'}),
                FDict({'a': 'red', 'b': 'cs:lime', 'c': 'cs:red',
                       'd': None, 'e': True, 'f': 3}),
                FDict({'edgecolor': 'none', 'cs:red': 'x',
                       'face': 'cs:gray', 'g': (0.1, 0.2, 0.3)})]
        for s in list(T) + ['nope']:
            for d in base + [FDict({'p ' + k: 'cs:' + k for k in
                                    T.get(s, KEYS)}),
                             FDict({k: 'cs:' + k for k in T.get(s, KEYS)})]:
                m = Model({'d': d, 's': s}, {}, '%r, scheme %r' % (d, s))
                m.d, m.s = d, s
                yield m

    def lists():
        for s in list(T) + ['nope']:
            for l in ((), ('cs:blue',), ('red', 'cs:core', 'cs:lime'),
                      ('cs:red', 'none', '', 'cs:red'),
                      tuple('cs:' + k for k in T.get(s, KEYS))):
                m = Model({'l': l, 's': s}, {}, '%r, scheme %r' % (l, s))
                m.l, m.s = l, s
                yield m

    def wd(m):
        return FDict({k: conv(m.s, v) for k, v in m.d.items()}) \
            if m.s in T else ERR

    def wl(m):
        return tuple(conv(m.s, v) for v in m.l) if m.s in T else ERR
    for kind, sym, ms, w in (('Dict', D, dicts, wd), ('List', L, lists, wl)):
        x = sym.args[0]
        for how, pre, arg in (('given scheme', '', ', s'),
                              ('global scheme', 'colorschemes.'
                               'setGlobalColorScheme(s)\n    ', '')):
            ctx.decide('convertColorsIn%s, %s' % (kind, how), rule, q,
                       lambda: client(
                           ctx, 'def entry(%s, s):\n    %sreturn '
                           'colorschemes.convertColorsIn%s(%s%s)\n' % (
                               x, pre, kind, x, arg), [sym, N]), ms, w)


def selected(ctx, T):
    """defaults of the plots after a choice of scheme and colours"""
    rule = 'plots use the colours of the selected scheme, and default ' \
        'colours given by the user replace exactly those defaults'
    q = ['causetplotting:setDefaultColors', 'causetplotting:plot_parameters']
    where = {'links': ('links', 'color'), 'linksedge': (
        'links', 'markeredgecolor'), 'linksface': (
            'links', 'markerfacecolor'), 'eventsedge': (
                'events', 'markeredgecolor'), 'eventsface': (
                    'events', 'markerfacecolor'), 'conesedge': (
                        'pastcones', 'edgecolor')}
    base = value(ctx, 'def entry():\n    return causetplotting.'
                 'default_colors\n')
    if not isinstance(base, dict):
        return

    def models():
        for s in list(T) + ['nope']:
            for d in [FDict()] + [FDict({k: c}) for k in where for c in (
                    'cs:red', 'brown')] + [
                        FDict({'links': 'cs:gray', 'eventsface': 'cs:lime'})]:
                m = Model({'d': d, 's': s}, {}, 'setDefaultColors(%r, **%r)'
                          % (s, d))
                m.d, m.s = d, s
                yield m

    def want(m):
        if m.s not in T:
            return ERR

        def col(k):
            c = m.d.get(k, base.get(k))
            return T[m.s][c[3:]] if c.startswith('cs:') else c
        return tuple(col(k) for k in where)
    ctx.decide('setDefaultColors', rule, q, lambda: client(
        ctx, 'def entry(d, s):\n    causetplotting.setDefaultColors(s, **d)\n'
        '    p = causetplotting.plot_parameters(pastcones=True)\n    return '
        '%s\n' % ', '.join('p[%r][%r]' % w for w in where.values()), [D, N]),
        models, want)
    ctx.decide('setDefaultColors()', rule, q, lambda: client(
        ctx, 'def entry(s):\n    causetplotting.setDefaultColors(s)\n'
        '    causetplotting.setDefaultColors()\n'
        '    return colorschemes.getColor("cs:blue")\n', [N]),
        [Model({'s': s}, {}, s) for s in T],
        lambda m: T['matplotlib']['blue'])


NOTE = (
    'The scheme table, the default colours and the lookup functions are '
    'evaluated from the source as they are right after the import (module '
    'level variables are part of the state, so a selected global scheme '
    'counts); every key of every scheme is checked against the colour '
    'names and forms of matplotlib and every lookup against the table.')
