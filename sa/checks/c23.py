"""C23: harmonic numbers and Newton iteration."""
import math
from fractions import Fraction

import numpy as np

from ..core import Ctx, Skip
from ..interp import Model, Fn
from .. import terms as t

N, A = t.sym('n', 'int'), t.sym('a', 'int')
GAMMA = 0.57721566490153286061


def run(ctx):
    harmonic(ctx)
    newton(ctx)
    return ctx.finish(NOTE, 8)


# ------------------------------------------------------ harmonic numbers
_H = [Fraction(0)]


def H(n):
    while len(_H) <= n:
        _H.append(_H[-1] + Fraction(1, len(_H)))
    return _H[n]


def asym(n):
    return math.log(n) + GAMMA + 1 / (2 * n) - 1 / (12 * n**2) + \
        1 / (120 * n**4)


def single(n, a):
    if n < a:
        return float(H(n))
    if n == 0:
        raise Skip()
    return asym(n)


def models(ns, as_):
    for n in ns:
        for a in as_:
            m = Model({'n': n, 'a': a}, {}, 'n = %d%s' % (
                n, '' if a is None else ', approximate = %d' % a))
            m.n, m.a = n, 100 if a is None else a
            yield m


def near(got, want):
    if isinstance(want, list):
        if isinstance(got, np.ndarray):
            got = got.tolist()
        return isinstance(got, (tuple, list)) and len(got) == len(want) and \
            all(near(x, y) for x, y in zip(got, want))
    try:
        return abs(float(got) - want) <= 2e-12 * max(1.0, abs(want))
    except (TypeError, ValueError):
        return False


def exact(got, want):
    if isinstance(want, list):
        return isinstance(got, (tuple, list)) and len(got) == len(want) and \
            all(exact(x, y) for x, y in zip(got, want))
    return isinstance(got, (Fraction, int)) and got == want


def harmonic(ctx):
    small = list(range(0, 14))
    thr = [1, 2, 3, 4, 5, 8, 13, 20]
    big = [97, 98, 99, 100, 101, 102, 130]
    huge = [65534, 65535, 65536, 65537] + ([92682, 131072, 208064]
                                           if ctx.thorough else [])

    def one(expr, what, q, rule, ms, spec, cmp):
        ctx.decide(what, rule, ['calculations:' + q],
                   lambda: ctx.client(
                       'def entry(n, a):\n    return calculations.%s\n'
                       % expr, [N, A]), ms, spec, cmp=cmp)
    r1 = 'the sum of 1/k for k up to n below the threshold, from the ' \
        'threshold on the asymptotic expansion of order n^-4'
    one('HarmonicNumber(n, a)', 'floating point value', 'HarmonicNumber', r1,
        lambda: models(small + [25], thr), lambda m: single(m.n, m.a), near)
    one('HarmonicNumber(n)', 'floating point value, default threshold',
        'HarmonicNumber', r1, lambda: models(small + big + huge, [None]),
        lambda m: single(m.n, m.a), near)
    one('HarmonicNumbers(n, a)', 'floating point vector', 'HarmonicNumbers',
        r1, lambda: models(small + [25], thr),
        lambda m: [single(k, m.a) for k in range(m.n + 1)], near)
    one('HarmonicNumbers(n)', 'floating point vector, default threshold',
        'HarmonicNumbers', r1, lambda: models(small + big, [None]),
        lambda m: [single(k, m.a) for k in range(m.n + 1)], near)
    one('HarmonicNumbers(n)[n]', 'last entry of a long vector',
        'HarmonicNumbers', r1, lambda: models(huge, [None]),
        lambda m: single(m.n, m.a), near)
    r2 = 'the exact sum of 1/k for k up to n, 0 for n = 0'
    one('HarmonicNumberFraction(n)', 'exact value', 'HarmonicNumberFraction',
        r2, lambda: models(small + [40, 101], [None]), lambda m: H(m.n),
        exact)
    one('HarmonicNumberFractions(n)', 'exact vector',
        'HarmonicNumberFractions', r2, lambda: models(small + [40], [None]),
        lambda m: [H(k) for k in range(m.n + 1)], exact)


# ------------------------------------------------------------- Newton
FUNS = [
    ('x^2', lambda x: x * x, lambda x: 2 * x),
    ('x^3 - x', lambda x: x**3 - x, lambda x: 3 * x * x - 1),
    ('2x - 3', lambda x: 2 * x - 3, lambda x: 2.0),
    ('exp(min(x, 40))', lambda x: math.exp(min(x, 40)),
     lambda x: math.exp(min(x, 40))),
    ('atan', math.atan, lambda x: 1 / (1 + x * x)),
    ('const', lambda x: 1.0, lambda x: 0.0),
    ('sign sqrt', lambda x: math.copysign(math.sqrt(abs(x)), x),
     lambda x: 0.5 / math.sqrt(abs(x)) if x else 0.0),
]
SYMS = [t.sym('f', 'any'), t.sym('g', 'any')] + [
    t.sym(x, 'num') for x in ('x0', 'y', 'lo', 'hi', 'd', 'p')] + [
        t.sym('k', 'int')]


def reference(f, g, x, y, lo, hi, d, p, k):
    for _ in range(k):
        s = g(x)
        if s == 0.0:
            return d
        if abs(s) < 1e-6:
            raise Skip()
        z = x - (f(x) - y) / s
        if z not in (lo + p, hi - p) and min(
                abs(z - lo - p), abs(z - hi + p)) < 1e-7 * max(1, abs(z)):
            raise Skip()
        if z < lo + p:
            z = lo + p
        elif z > hi - p:
            z = hi - p
        q = abs(x - z)
        if abs(q - p) < 1e-6 * p:
            raise Skip()
        if q < p:
            return z
        x = z
    return d


DEFAULTS = {'y': 0.0, 'lo': -math.inf, 'hi': math.inf, 'd': 0.0, 'p': 1e-6,
            'k': 50}
KEYS = {'y': 'y', 'lo': 'xmin', 'hi': 'xmax', 'd': 'default',
        'p': 'precission', 'k': 'maxIterations'}


def newton(ctx):
    def ms(fixed):
        for name, f, g in FUNS:
            for x0 in (-3.0, -0.5, 0.0, 0.7, 2.0, 6.0):
                for y in (0.0, 0.5, -2.0):
                    for lo, hi in ((-math.inf, math.inf), (-1.0, 1.5),
                                   (0.5, math.inf), (-math.inf, 0.25),
                                   (2.0, 5.0)):
                        for p in (1e-6, 0.125):
                            for k in (0, 1, 2, 3, 8, 50):
                                v = dict(x0=x0, y=y, lo=lo, hi=hi, d=-77.0,
                                         p=p, k=k)
                                if fixed and (k != 8 or p != 0.125):
                                    continue
                                for z in fixed:
                                    v[z] = DEFAULTS[z]
                                m = Model(dict(v, f=Fn(f), g=Fn(g)), {},
                                          'f = %s, %s' % (name, ', '.join(
                                              '%s = %s' % q
                                              for q in v.items())))
                                m.v = (f, g, x0) + tuple(
                                    v[z] for z in ('y', 'lo', 'hi', 'd', 'p',
                                                   'k'))
                                yield m
    rule = 'the value is the first iterate (restricted to the interval ' \
        '[xmin + precission, xmax - precission]) that differs from its ' \
        'predecessor by less than the precision, or the default if there ' \
        'is none within the maximal number of iterations'
    ctx.decide(
        'Newton', rule, ['calculations:NewtonsMethod'], lambda: ctx.client(
            'def entry(f, g, x0, y, lo, hi, d, p, k):\n    return '
            'calculations.NewtonsMethod(f, g, x0, y, lo, hi, d, p, k)\n',
            SYMS), lambda: ms(()), lambda m: reference(*m.v))
    for z in DEFAULTS:
        kw = ', '.join('%s=%s' % (KEYS[q], q) for q in DEFAULTS if q != z)
        ctx.decide(
            'Newton, default of ' + KEYS[z], rule, ['calculations:NewtonsMethod'],
            lambda: ctx.client(
                'def entry(f, g, x0, y, lo, hi, d, p, k):\n    return '
                'calculations.NewtonsMethod(f, g, x0, %s)\n' % kw, SYMS),
            lambda: ms((z,)), lambda m: reference(*m.v))


NOTE = (
    'Every variant is reduced to a value graph with the loop as a fold '
    'recurrence over symbolic n, threshold, functions and bounds; the graph '
    'is compared with the definition around all thresholds (n below, at and '
    'above; empty loops; integer ranges beyond 2^64 in the powers), and the '
    'Newton recurrence with its definition for functions that converge, '
    'oscillate, diverge, are restricted on either side and have a vanishing '
    'derivative.')
