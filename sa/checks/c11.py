"""C11: chain, antichain and path predicates."""
import itertools

from .. import terms as t
from ..cases import SELF, S, L, cases, query
from ..orders import model
from ..roles import link_contracts

RULE = 'value graph of the predicate = its definition by the causal order, ' \
       'on every order type and every event set in the bound'


def chain(o, s):
    return all(o.le(x, y) or o.lt(y, x) for x in s for y in s)


def antichain(o, s):
    return all(x is y or not (o.lt(x, y) or o.lt(y, x))
               for x in s for y in s)


def path(o, s):
    if not s or not chain(o, s):
        return False
    l = sorted(s, key=lambda x: len(o.past[x] & s))
    return all(x in o.lpast[y] for x, y in zip(l, l[1:]))


def run(ctx):
    lc = link_contracts(ctx)
    n = 5

    def setc():
        return cases(ctx, sets=('S',), nmax=n, tmax=6 if False else 5)()
    for q, f in (('isChain', chain), ('isAntichain', antichain),
                 ('isPath', path)):
        qual = 'Causet.' + q
        query(ctx, qual, [SELF, S], {}, setc,
              lambda m, f=f: f(m.o, m.syms['S']), RULE, ov=lc,
              label='of an event set')
        query(ctx, qual, [SELF, L], {}, cases(ctx, lst=('L',), nmax=3,
                                              lmax=3),
              lambda m, f=f: f(m.o, frozenset(m.syms['L'])), RULE, ov=lc,
              label='of an event list')
        query(ctx, qual, [SELF, S], {}, cases(ctx, sets=('S',), sub=True,
                                              nmax=3, big=30),
              lambda m, f=f: f(m.o, m.syms['S']), RULE, ov=lc,
              label='of events outside of the causet')
        query(ctx, qual, [SELF], {}, cases(ctx, nmax=5, tmax=5),
              lambda m, f=f: f(m.o, m.C), RULE, ov=lc, label='of a causet')
    return ctx.finish(
        'The predicates are summarised from the source (early exits become '
        'quantifiers, counters with thresholds become cardinality '
        'conditions) and compared with their definitions on every order type '
        'of up to 5 events and every event set in it; event-level link '
        'queries are taken by contract (decided in C03).', floor=4)
