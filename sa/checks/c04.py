"""C04: comparisons of events."""
from ..cases import a, b, cases, query
from ..orders import model

RULE = 'value graph of the comparison = its definition by the causal order, ' \
       'on every order type and every pair of events in the bound'


def run(ctx):
    plain = cases(ctx, ev=('a', 'b'), nmax=4)

    def ms():
        for m in plain():
            yield m
            if m.o.n > 3:
                continue
            # labels say nothing about identity, links nothing about order
            for labels in ({z: None for z in m.o.E}, {z: 'x' for z in m.o.E},
                           {z: z.n // 2 for z in m.o.E}):
                for linked in (frozenset(), m.o.all):
                    k = model(m.o, ctx.roles, m.syms, labels=labels,
                              linked=linked)
                    k.desc += '; labels %s' % labels
                    yield k

    def s(f):
        return lambda m: f(m.o, m.syms['a'], m.syms['b'])
    D = {
        '__lt__': lambda o, x, y: o.lt(x, y),
        '__le__': lambda o, x, y: o.le(x, y),
        '__gt__': lambda o, x, y: o.lt(y, x),
        '__ge__': lambda o, x, y: o.le(y, x),
        'isCausalTo': lambda o, x, y: o.le(x, y) or o.lt(y, x),
        'isSpacelikeTo': lambda o, x, y: not (o.le(x, y) or o.lt(y, x)),
    }
    for q, f in D.items():
        query(ctx, 'CausetEvent.' + q, [a, b], {}, ms, s(f), RULE)
    # no own equality or hash: a == b only for the same instance
    def own():
        c = ctx.prog.cls('CausetEvent')
        for nm in ('__eq__', '__ne__', '__hash__'):
            if nm in c.methods:
                yield 'unk', '%s is overridden' % nm
            else:
                yield 'ok', None
    ctx.obligation('identity of events',
                   'CausetEvent inherits equality and hash from object',
                   ['class CausetEvent'], own)
    return ctx.finish(
        'The six comparisons are summarised to formulas over the past and '
        'future sets and evaluated on every order type of up to 4 (thorough: '
        '5) events; they mention two events, so every order is covered by its '
        'restriction to those two and the sets they are members of.', floor=3)
