"""C06: region queries."""
from .. import terms as t
from ..cases import (SELF, a, b, e, S, T, cases, combos, query, as_set)
from ..core import Skip
from ..roles import link_contracts

RULE = 'value graph of the query = the events (number) its description ' \
       'names, on every order type in the bound'
FLAG = [None, t.TRUE, t.FALSE]


def flag(kw, k, default):
    v = kw.get(k)
    return default if v is None else t.cval(v)


def run(ctx):
    lc = link_contracts(ctx)
    E = 'CausetEvent.'
    one = cases(ctx, ev=('e',))

    def q(qual, args, kw, ms, spec, ov=None, post=as_set, label=''):
        query(ctx, qual, args, kw, ms, spec, RULE, ov=ov, post=post,
              label=label)

    def s1(f):
        return lambda m: f(m.o, m.syms['e'])
    for nm, f in (
            ('Past', lambda o, x: o.past[x]),
            ('Future', lambda o, x: o.future[x]),
            ('Cone', lambda o, x: o.cone(x)),
            ('PresentOrPast', lambda o, x: o.past[x] | {x}),
            ('PresentOrFuture', lambda o, x: o.future[x] | {x})):
        q(E + nm, [e], {}, one, s1(f))
    q(E + 'Spacelike', [e, S], {}, cases(ctx, ev=('e',), sets=('S',)),
      lambda m: m.syms['S'] - m.o.cone(m.syms['e']))

    ss = cases(ctx, sets=('S',))
    for nm, f, dflt in (('PastOf', lambda o, x: o.past[x], False),
                        ('FutureOf', lambda o, x: o.future[x], False),
                        ('ConeOf', lambda o, x: o.past[x] | o.future[x],
                         True)):
        for kw in combos(includePresent=FLAG, intersect=FLAG):
            inc = flag(kw, 'includePresent', dflt)
            its = flag(kw, 'intersect', False)

            def spec(m, f=f, inc=inc, its=its):
                parts = [f(m.o, x) | ({x} if inc else frozenset())
                         for x in m.syms['S']]
                if not parts:
                    return frozenset()
                return frozenset.intersection(*parts) if its else \
                    frozenset.union(*parts)
            q('Causet.' + nm, [S], kw, ss, spec)
    q('Causet.SpacelikeTo', [SELF, S], {}, cases(ctx, sets=('S',), sub=True,
                                                 nmax=3),
      lambda m: frozenset(x for x in m.C if all(
          x not in m.o.cone(y) for y in m.syms['S'])))
    ab = cases(ctx, ev=('a', 'b'))

    def between(o, x, y):
        return o.future[x] & o.past[y]

    for kw in combos(includeBoundary=FLAG):
        inc = flag(kw, 'includeBoundary', True)

        def spec(m, inc=inc):
            x, y = m.syms['a'], m.syms['b']
            if not m.o.le(x, y):
                return frozenset()
            if x is y:
                return frozenset({x})
            return between(m.o, x, y) | (frozenset({x, y}) if inc else
                                         frozenset())
        q('Causet.Interval', [a, b], kw, ab, spec)
        q('Causet.IntervalCard', [a, b], kw, ab,
          lambda m, s=spec: len(s(m)), post=None)

    def perim(m):
        x, y = m.syms['a'], m.syms['b']
        return frozenset(z for z in m.o.E if m.o.lt(x, y) and
                         z in m.o.lfuture[x] and z in m.o.lpast[y])

    def inner(m):
        x, y = m.syms['a'], m.syms['b']
        if not m.o.lt(x, y):
            return frozenset()
        return between(m.o, x, y) - perim(m)
    ab5 = cases(ctx, ev=('a', 'b'), nmax=5, tmax=5)
    q('Causet.PerimetralEvents', [a, b], {}, ab5, perim, ov=lc)
    q('Causet.PerimetralEventCount', [a, b], {}, ab5,
      lambda m: len(perim(m)), ov=lc, post=None)
    q('Causet.InternalEvents', [a, b], {}, ab5, inner, ov=lc)
    q('Causet.InternalEventCount', [a, b], {}, ab5,
      lambda m: len(inner(m)), ov=lc, post=None)
    allc = cases(ctx)
    pi = lambda m: frozenset(x for x in m.C if not m.o.past[x])
    fi = lambda m: frozenset(x for x in m.C if not m.o.future[x])
    q('Causet.PastInf', [SELF], {}, allc, pi)
    q('Causet.FutureInf', [SELF], {}, allc, fi)
    q('Causet.PastInfCard', [SELF], {}, allc, lambda m: len(pi(m)), post=None)
    q('Causet.FutureInfCard', [SELF], {}, allc, lambda m: len(fi(m)),
      post=None)

    def pio(m):
        s = m.syms['S']
        return frozenset(x for x in s if not m.o.past[x] & s)

    def fio(m):
        s = m.syms['S']
        return frozenset(x for x in s if not m.o.future[x] & s)
    q('Causet.PastInfOf', [S], {}, ss, pio)
    q('Causet.FutureInfOf', [S], {}, ss, fio)
    q('Causet.PastInfCardOf', [S], {}, ss, lambda m: len(pio(m)), post=None)
    q('Causet.FutureInfCardOf', [S], {}, ss, lambda m: len(fio(m)),
      post=None)

    # smallest interval cardinality
    def sic(m, search, cut):
        o = m.o
        x, y = m.syms['a'], m.syms['b']
        A = m.syms['S'] if search else m.C
        cutset = m.syms['T'] if cut else None

        def card(s):
            return len(s if cutset is None else s & cutset)

        def ival(p, f):
            return card(between(o, p, f) | {p, f})
        if o.lt(y, x):
            x, y = y, x
        if o.le(x, y):
            if search and not (x in A and y in A):
                # end points outside of the search set: only one of them
                # (the entire past or future of the other), or none
                if x in A:
                    return card(o.future[x])
                if y in A:
                    return card(o.past[y])
                raise Skip()
            return ival(x, y)
        P = o.past[x] & o.past[y] & A
        F = o.future[x] & o.future[y] & A
        if not P and not F:
            return 0
        if not P:
            return min(card(o.past[f]) for f in F)
        if not F:
            return min(card(o.future[p]) for p in P)
        return min(ival(p, f) for p in P for f in F)
    for search in (False, True):
        for cut in (False, True):
            kw = {}
            names = []
            if search:
                kw['searching'] = S
                names.append('S')
            if cut:
                kw['intersecting'] = T
                names.append('T')
            q('Causet.SmallestIntervalCard', [SELF, a, b], kw,
              cases(ctx, ev=('a', 'b'), sets=tuple(names),
                    nmax=5 - len(names), tmax=5 if not names else
                    6 - len(names) if len(names) < 2 else 3),
              lambda m, s=search, c=cut: sic(m, s, c), post=None)
    # (a fixed six-event shape: two spacelike events with several common past
    # and common future events)
    from ..orders import Order, model
    ctx_o = [Order(6, frozenset([(i, j) for i in (0, 1) for j in (2, 3)] +
                                [(i, j) for i in (0, 1, 2, 3)
                                 for j in (4, 5)])),
             Order(7, frozenset([(i, j) for i in (0, 1) for j in (2, 3, 6)] +
                                [(i, j) for i in (0, 1, 2, 3, 6)
                                 for j in (4, 5)] + [(0, 1)])),
             Order(7, frozenset([(0, 2), (0, 3), (1, 2), (1, 3), (2, 4),
                                 (3, 4), (0, 4), (1, 4), (2, 6), (6, 4),
                                 (0, 6), (1, 6), (1, 5), (5, 2), (5, 3),
                                 (5, 4), (5, 6)]))]
    ctx_o = [o for o in ctx_o if _closed(o)]

    def big():
        for o in ctx_o:
            for x in o.E:
                for y in o.E:
                    for k in range(0, 3):
                        sset = frozenset(z for z in o.E if z.n % 3 != k)
                        yield model(o, ctx.roles, {
                            'a': x, 'b': y, 'S': sset,
                            'T': frozenset(z for z in o.E if z.n != 5 - k)})
    for search in (False, True):
        for cut in (False, True):
            kw = {}
            if search:
                kw['searching'] = S
            if cut:
                kw['intersecting'] = T
            q('Causet.SmallestIntervalCard', [SELF, a, b], kw, big,
              lambda m, s=search, c=cut: sic(m, s, c), post=None,
              label='with several common events')
    return ctx.finish(
        'Each region query is summarised from the source to a closed term '
        'over the past, future and link sets and compared with the set or '
        'number its documentation names on every order type of up to 4 '
        '(perimetral and internal events, smallest intervals: 5; thorough: '
        'one more) events, for every choice of events, event sets and '
        'options.', floor=12)


def _closed(o):
    return all(o.past[x] >= o.past[y] for x in o.E for y in o.past[x])
