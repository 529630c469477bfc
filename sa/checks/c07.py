"""C07: past and future operations are time reversals of each other."""
from .. import terms as t
from ..cases import (SELF, a, b, e, S, L, cases, combos, flag_name)
from ..core import Skip
from ..interp import Interp, Unk, Err, Bag
from ..orders import model
from ..roles import link_contracts, rank_contract

RULE = 'value graph of the past version on an order type = value graph of ' \
       'the future version on the reversed order type'
FLAG = [None, t.TRUE, t.FALSE]


def run(ctx):
    lc = link_contracts(ctx)
    rc = rank_contract(ctx)

    def pair(qp, qf, args, ms, kw=None, fargs=None, fkw=None, ov=None,
             conv=None):
        kw = kw or {}
        fkw = kw if fkw is None else fkw
        fargs = args if fargs is None else fargs
        st = {}

        def build():
            st['f'] = ctx.call(qf, fargs, fkw, overrides=ov).outcome
            return ctx.call(qp, args, kw, overrides=ov)

        def spec(m):
            r = model(m.o.reverse(), ctx.roles, m.syms, C=m.C,
                      linked=m.linked)
            try:
                v = Interp(r).outcome(st['f'])
            except Unk:
                raise Skip()
            return conv(v) if conv else v
        nm = '%s / %s' % (qp, qf.split('.')[1])
        if kw:
            nm += '(%s)' % flag_name(kw)
        ctx.decide(nm, RULE, [qp, qf] if qp != qf else [qp], build, ms, spec)

    E, C = 'CausetEvent.', 'Causet.'
    one = cases(ctx, ev=('e',))
    two = cases(ctx, ev=('a', 'b'))
    ss = cases(ctx, sets=('S',))
    for p, f in (('Past', 'Future'), ('PresentOrPast', 'PresentOrFuture'),
                 ('PastCard', 'FutureCard'), ('Cone', 'Cone'),
                 ('ConeCard', 'ConeCard')):
        pair(E + p, E + f, [e], one)
    pair(E + 'Spacelike', E + 'Spacelike', [e, S],
         cases(ctx, ev=('e',), sets=('S',), nmax=3))
    pair(E + 'SpacelikeCard', E + 'SpacelikeCard', [e, S],
         cases(ctx, ev=('e',), sets=('S',), nmax=3))
    for p, f in (('__lt__', '__gt__'), ('__le__', '__ge__'),
                 ('isCausalTo', 'isCausalTo'),
                 ('isSpacelikeTo', 'isSpacelikeTo')):
        pair(E + p, E + f, [a, b], two)
    from .c05 import link_cases
    for p, f in (('LinkPast', 'LinkFuture'),
                 ('LinkPastCard', 'LinkFutureCard'),
                 ('LinkCone', 'LinkCone'), ('LinkConeCard', 'LinkConeCard')):
        pair(E + p, E + f, [e], link_cases(ctx))
    pair(E + 'isPastLink', E + 'isFutureLink', [a, b], two)
    for p, f in (('PastOf', 'FutureOf'), ('ConeOf', 'ConeOf')):
        for kw in combos(includePresent=FLAG, intersect=FLAG):
            pair(C + p, C + f, [S], ss, kw)
    for p, f in (('PastInfOf', 'FutureInfOf'),
                 ('PastInfCardOf', 'FutureInfCardOf')):
        pair(C + p, C + f, [S], ss)
    for p, f in (('PastInf', 'FutureInf'), ('PastInfCard', 'FutureInfCard')):
        pair(C + p, C + f, [SELF], cases(ctx, sub=True, nmax=3))
    for kw in combos(includeBoundary=FLAG):
        for q in ('Interval', 'IntervalCard'):
            pair(C + q, C + q, [a, b], two, kw, fargs=[b, a])
    for q in ('PerimetralEvents', 'PerimetralEventCount', 'InternalEvents',
              'InternalEventCount'):
        pair(C + q, C + q, [a, b], two, fargs=[b, a], ov=lc)
    pair(C + 'SmallestIntervalCard', C + 'SmallestIntervalCard',
         [SELF, a, b], cases(ctx, ev=('a', 'b'), nmax=5, tmax=5),
         fargs=[SELF, b, a])
    pair(C + 'SmallestIntervalCard', C + 'SmallestIntervalCard',
         [SELF, a, b], cases(ctx, ev=('a', 'b'), sets=('S',), nmax=4, tmax=4),
         {'searching': S}, fargs=[SELF, b, a])
    for mt in ((None, None), ):
        ls = cases(ctx, lst=('L',), lmax=3, nmax=4, tmax=4)
        pair(C + 'PastMatrix', C + 'FutureMatrix', [SELF, L], ls)
        pair(C + 'LinkPastMatrix', C + 'LinkFutureMatrix', [SELF, L], ls,
             ov=lc)
    # layers and ranks
    rng = range(-3, 4)
    sgn = cases(ctx, sets=('S',), nmax=4, tmax=5)

    def anti():
        # the layer 0 is the event set itself for antichains only
        for m in sgn():
            s = m.syms['S']
            if not any(m.o.past[x] & s for x in s):
                yield m
    for q, ov in (('Layers', None), ('Ranks', rc)):
        for lo in rng:
            for hi in rng:
                if lo > hi or hi - lo not in (0, 1, 3):
                    continue
                pair(C + q, C + q, [S, t.const(lo), t.const(hi)],
                     anti if lo <= 0 <= hi else sgn,
                     fargs=[S, t.const(-hi), t.const(-lo)], ov=ov)
    for q, ov in (('LayerNumbers', None), ('RankNumbers', rc)):
        pair(C + q, C + q, [L], cases(ctx, lst=('L',), lmax=4, nmax=4,
                                      tmax=4),
             fargs=[L], fkw={'reverse': t.TRUE}, ov=ov, conv=negate)
    pair(C + 'isChain', C + 'isChain', [SELF, S], ss)
    pair(C + 'isAntichain', C + 'isAntichain', [SELF, S], ss)
    pair(C + 'isPath', C + 'isPath', [SELF, S], ss, ov=lc)
    pair(C + 'LinkCount', C + 'LinkCount', [SELF, S], ss, ov=lc)
    return ctx.finish(
        'Both versions of an operation are summarised from the source and '
        'compared with each other: the past version on every order type of '
        'up to 4 (thorough: 5) events, the future version on the reversed '
        'order type, for every choice of events, sets, label lists (up to 3 '
        'or 4 entries), layer ranges within -3..3 and options.', floor=15)


def negate(v):
    if isinstance(v, tuple):
        return tuple(-x for x in v)
    if isinstance(v, Err):
        return v
    raise Skip()
