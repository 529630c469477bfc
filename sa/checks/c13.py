"""C13: layers and ranks."""
import math

from .. import terms as t
from ..cases import S, L, SELF, cases, query, as_set
from ..core import Skip
from ..interp import Bag, Unk, Err
from ..roles import rank_contract

RULE = 'value graph = layer (rank) numbers by their definition, on every ' \
       'order type in the bound'

FAR = [-60, -6, -5, 5, 6, 60]


def card(o, x, y):
    return len(o.future[x] & o.past[y]) + 2 if o.lt(x, y) else \
        (1 if x is y else 0)


def measure(kind):
    if kind == 'layer':
        return lambda o, x, y: card(o, x, y) - 1
    return lambda o, x, y: int(o.rank(x, y))


def number(o, x, s, f, up):
    """Number of x relative to the set, None if x has no partner and is not
    in the set."""
    if up:
        p = [f(o, y, x) for y in s if o.lt(y, x)]
    else:
        p = [-f(o, x, y) for y in s if o.lt(x, y)]
    if p:
        return max(p) if up else min(p)
    return 0 if x in s else None


def numset(o, s, f, lo, hi):
    out = set()
    if not s or lo > hi:
        return frozenset()
    for x in o.E:
        d = number(o, x, s, f, False)
        u = number(o, x, s, f, True)
        if d is not None and lo <= d <= hi and lo <= 0 and d <= 0:
            out.add(x)
        if u is not None and lo <= u <= hi and hi > 0:
            out.add(x)
    return frozenset(out)


def run(ctx):
    rc = rank_contract(ctx)
    n = 4
    for q, kind, ov in (('Layers', 'layer', None), ('Ranks', 'rank', rc)):
        f = measure(kind)
        for lo in list(range(-4, 5)) + FAR:
            for hi in [None] + list(range(-4, 5)) + FAR:
                wide = hi is None and abs(lo) < 9 or abs(lo) <= 2 and abs(hi) <= 2 or \
                    (lo, hi) in ((-4, 4), (-3, 1), (-1, 3), (3, 4), (-4, -3),
                                 (1, 4), (-4, -1), (0, 4), (-4, 0),
                                 (-60, 60), (-60, -1), (1, 60), (-6, -5),
                                 (5, 6), (-60, 0), (0, 60))
                if not wide:
                    continue
                args = [S, t.const(lo)] + ([] if hi is None else
                                           [t.const(hi)])
                # numbers of an event are compared where the two readings
                # (past and future numbering) of the text agree
                query(ctx, 'Causet.' + q, args, {},
                      cases(ctx, sets=('S',), nmax=n),
                      lambda m, f=f, lo=lo, hi=hi: numset(
                          m.o, m.syms['S'], f, lo, lo if hi is None else hi),
                      RULE, ov=ov, label='%s..%s' % (lo, hi), post=as_set)
    for q, kind, ov in (('LayerNumbers', 'layer', None),
                        ('RankNumbers', 'rank', rc)):
        f = measure(kind)
        for rev in (None, t.FALSE, t.TRUE):
            up = rev is not t.TRUE

            def spec(m, f=f, up=up):
                l = m.syms['L']
                s = frozenset(l)
                return tuple(number(m.o, x, s, f, up) for x in l)
            query(ctx, 'Causet.' + q, [L],
                  {} if rev is None else {'reverse': rev},
                  cases(ctx, lst=('L',), nmax=4, lmax=4, tmax=5), spec, RULE,
                  ov=ov)

    # layered: consecutive layers
    def layered(m, rev):
        raise Skip()
    return ctx.finish(
        'The functions are summarised from the source (loops with guarded '
        'additions become set comprehensions, maxima become bounded '
        'extrema) and compared with the definition on every order type of up '
        'to 4 (thorough: 5) events, for every event set, all ranges within '
        '-2..2 and selected wider ones, and every list without repetition. '
        'The rank of two events is taken as a given function (rank '
        'enumeration itself is C27).', floor=20)
