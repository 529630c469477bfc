"""C05: every counting query equals the size of its set query."""
from .. import terms as t
from ..cases import (SELF, a, b, e, S, cases, combos, flag_name)
from ..interp import Interp, Unk
from ..roles import link_contracts

RULE = 'value graph of the counting query = size of the value graph of the ' \
       'set query, on every order type in the bound'

EVENT = [('Past', 'PastCard'), ('Future', 'FutureCard'), ('Cone', 'ConeCard'),
         ('LinkPast', 'LinkPastCard'), ('LinkFuture', 'LinkFutureCard'),
         ('LinkCone', 'LinkConeCard')]
FLAG = [None, t.TRUE, t.FALSE]


def run(ctx):
    lc = link_contracts(ctx)

    def pair(qs, qc, args, kw, models, ov=None):
        st = {}

        def build():
            c = ctx.call(qc, args, kw, overrides=ov)
            s = ctx.call(qs, args, kw, overrides=ov)
            st['s'] = s.outcome
            return c

        def spec(m):
            v = Interp(m).outcome(st['s'])
            if not isinstance(v, (frozenset, tuple)):
                raise Unk('set form')
            return len(v)
        name = '%s/%s' % (qc, qs.split('.')[1])
        if kw:
            name += '(%s)' % flag_name(kw)
        ctx.decide(name, RULE, [qc, qs], build, models, spec_unk(spec))

    def spec_unk(spec):
        from ..core import Skip

        def f(m):
            try:
                return spec(m)
            except Unk:
                raise Skip()
        return f

    for s, c in EVENT:
        linkq = s.startswith('Link')
        pair('CausetEvent.' + s, 'CausetEvent.' + c, [e], {},
             link_cases(ctx) if linkq else cases(ctx, ev=('e',)))
    pair('CausetEvent.Spacelike', 'CausetEvent.SpacelikeCard', [e, S], {},
         cases(ctx, ev=('e',), sets=('S',)))
    for s, c in (('PastInf', 'PastInfCard'), ('FutureInf', 'FutureInfCard'),
                 ('__iter__', 'Card')):
        pair('Causet.' + s, 'Causet.' + c, [SELF], {}, cases(ctx, sub=True))
    pair('Causet.__iter__', 'Causet.len', [SELF], {}, cases(ctx, sub=True))
    for s, c in (('PastInfOf', 'PastInfCardOf'),
                 ('FutureInfOf', 'FutureInfCardOf')):
        pair('Causet.' + s, 'Causet.' + c, [S], {},
             cases(ctx, sets=('S',)))
    for kw in combos(includeBoundary=FLAG):
        pair('Causet.Interval', 'Causet.IntervalCard', [a, b], kw,
             cases(ctx, ev=('a', 'b')))
    for s, c in (('PerimetralEvents', 'PerimetralEventCount'),
                 ('InternalEvents', 'InternalEventCount')):
        pair('Causet.' + s, 'Causet.' + c, [a, b], {},
             cases(ctx, ev=('a', 'b'), nmax=5), ov=lc)
    return ctx.finish(
        'Each counting query and its set query are summarised from the source '
        'to closed terms over the past and future sets (loops become bound '
        'variables, no unrolling); both are compared on every order type of '
        'up to 4 (thorough: 5) events, for every choice of events, event '
        'sets and options, and for every set of events that remember their '
        'links. Larger orders are covered by the small-model argument of '
        'DESIGN.md only.', floor=8)


def link_cases(ctx):
    from ..orders import orders, large, model

    def gen():
        for o in orders(5 if ctx.thorough else 4) + large():
            for ev in o.E:
                for lk in (frozenset(), frozenset([ev]), o.all):
                    yield model(o, ctx.roles, {'e': ev}, linked=lk)
    return gen
