"""C30: sorting, layering and disjoining."""
import itertools
import random

from .. import terms as t
from ..cases import SELF, S, e, cases as all_cases
from ..distances import closed
from ..interp import Bag, Err, Unk
from ..orders import SIZES, orders, subsets, model
from ..roles import link_contracts

REV = t.sym('rev', 'bool')
NOTE = ('Sorting, layering and disjoining are reduced to one term each '
        '(nested recurrences over the positions of the list and the '
        'remaining events); their values are validated for every order type '
        'of up to 4 (thorough: 5) events with every numbering of the events '
        '(labels) and every event set, sets of events outside of the causet '
        'included.')


def labellings(o, full=True):
    """Numberings of the events, up to the symmetry of reversal."""
    n = o.n
    if n > 8:
        for k in range(3):
            yield dict(zip(o.E, random.Random(k).sample(range(8, 8 + n), n)))
        return
    ps = list(itertools.permutations(range(n)))
    if not full and len(ps) > 24:
        ps = random.Random(n).sample(ps, 24)
    for p in ps:                # one and two digits
        yield {x: i + 8 for x, i in zip(o.E, p)}


def special():
    yield closed(6, [(0, 3), (1, 3), (1, 4), (2, 4), (2, 5), (0, 5)])
    yield closed(6, [(0, 1), (1, 2), (3, 4), (4, 5), (0, 4), (1, 5)])
    yield closed(7, [(i, i + 1) for i in range(6)])
    yield closed(7, [(0, 2), (1, 2), (2, 3), (2, 4), (4, 5), (3, 6)])
    yield closed(7, [(0, 2), (0, 3), (1, 2), (1, 3), (4, 5)])
    yield closed(8, [(0, 1), (1, 2), (3, 4), (5, 6), (5, 7)])
    for k in SIZES[:1]:
        yield closed(k, [(i, i + 1) for i in range(k - 1)])
        yield closed(k, [(i, k - 1) for i in range(k // 2)])


def models(ctx, sets=True, full=True, more=None, labels=True):
    def gen():
        for o, small in itertools.chain(
                ((o, True) for o in orders(5 if ctx.thorough else 4)),
                ((o, False) for o in special())):
            SS = [None]
            if sets:
                SS = list(subsets(o.E)) if small else [
                    o.all, frozenset(o.E[::2]), frozenset(o.E[1:])]
            for s in SS:
                for l in labellings(o, full and o.n < 5) if labels else [
                        None]:
                    syms = {} if s is None else {'S': s}
                    for r in (False, True) if more else (False,):
                        if more:
                            syms = dict(syms, rev=r)
                        m = model(o, ctx.roles, syms, labels=l)
                        m.labels = l
                        m.desc += '; labels %s' % (l and [l[x] for x in o.E])
                        m.S = o.all if s is None else s
                        yield m
    return gen


def odd_labels(ctx, none=True):
    """Labels that are not numbers or not unique, and no labels."""
    def gen():
        for o in list(orders(4)) + list(special()):
            for s in {o.all, frozenset(o.E[1:]), frozenset(o.E[::2])}:
                for k, p in enumerate(labellings(o, o.n < 4)):
                    if k > (5 if ctx.thorough else 2):
                        break
                    names = ('b', 'B', '10', '9', 'a-b', 'a', '', '-1')
                    ls = [{x: names[i % 8] for x, i in p.items()},
                          {x: i // 2 for x, i in p.items()},
                          {x: names[i % 3] for x, i in p.items()}]
                    if none:
                        ls += [{x: None for x in o.E},
                               {x: i if i % 2 else None
                                for x, i in p.items()},
                               {x: 'a' if i == 10 else None
                                for x, i in p.items()}]
                    for l in ls:
                        for r in (False, True):
                            m = model(o, ctx.roles, {'S': s, 'rev': r},
                                      labels=l)
                            m.labels, m.S = l, s
                            m.desc += '; labels %s' % [l[x] for x in o.E]
                            yield m
    return gen


def outside(ctx):
    """Event sets that reach over the events of the causet."""
    def gen():
        for o in orders(4):
            for C in subsets(o.E):
                for s in subsets(o.E):
                    m = model(o, ctx.roles, {'S': s}, C=C)
                    m.S = s
                    yield m
    return gen


def listing(v):
    if isinstance(v, Bag):      # in the order of this run
        v = v.items
    return v if isinstance(v, tuple) else None


def is_sorted(v, m, reverse=False):
    v = listing(v)
    if v is None or len(v) != len(m.S) or frozenset(v) != m.S:
        return False
    if reverse:
        v = v[::-1]
    return not any(m.o.lt(y, x) for x, y in itertools.combinations(v, 2))


def components(o, s):
    left, out = set(s), set()
    while left:
        c = {min(left)}
        while True:
            d = {x for x in s if any(x in o.cone(y) for y in c)}
            if d == c:
                break
            c = d
        out.add(frozenset(c))
        left -= c
    return out


def is_partition(v, m):
    if isinstance(v, Bag):
        v = tuple(v.items)
    if not isinstance(v, tuple):
        return False
    parts = []
    for x in v:
        if isinstance(x, Bag):
            x = frozenset(x.items)
        if not isinstance(x, frozenset):
            return False
        parts.append(x)
    return len(set(parts)) == len(parts) and \
        set(parts) == components(m.o, m.S)


def levels(o, reverse=False):
    below = o.future if reverse else o.past
    h = {}

    def height(x):
        if x not in h:
            h[x] = 1 + max([height(y) for y in below[x]], default=-1)
        return h[x]
    out = []
    for x in o.E:
        while len(out) <= height(x):
            out.append(set())
        out[height(x)].add(x)
    return tuple(frozenset(x) for x in out)


def run(ctx):
    ov = link_contracts(ctx)

    def make(expr, args=(SELF, S)):
        names = ', '.join(x.args[0] for x in args)
        return lambda: ctx.client('def entry(%s):\n    return %s\n' % (
            names, expr), list(args), overrides=ov)

    def check(name, rule, qual, build, ms, test):
        """the property of the value is tested on the model itself"""
        ctx.decide(name, rule, [qual], build, ms, lambda m: m,
                   cmp=lambda v, m: test(v, m))
    q = 'Causet.sortedByCausality'
    R = 'the list holds every event of the set once and no event before ' \
        'one of its predecessors (reversed: behind)'
    check('sortedByCausality of a causet', R, q,
          make('self.sortedByCausality()', [SELF]),
          models(ctx, sets=False), is_sorted)
    check('sortedByCausality of an event set', R, q,
          make('self.sortedByCausality(S)'), models(ctx), is_sorted)
    check('sortedByCausality(reverse=True)', R, q,
          make('self.sortedByCausality(reverse=True)', [SELF]),
          models(ctx, sets=False), lambda v, m: is_sorted(v, m, True))
    check('sortedByCausality of an event set in reverse', R, q,
          make('self.sortedByCausality(S, rev)', [SELF, S, REV]),
          models(ctx, more=True, full=False),
          lambda v, m: is_sorted(v, m, m.syms['rev']))
    check('sortedByCausality of events without or with equal labels', R, q,
          make('self.sortedByCausality(S, rev)', [SELF, S, REV]),
          odd_labels(ctx), lambda v, m: is_sorted(v, m, m.syms['rev']))
    q = 'Causet.sortedByLabels'
    R = 'the list holds every event of the set once in the order of the ' \
        'labels'

    def by_label(v, m, reverse=None):
        if reverse is None:
            reverse = m.syms.get('rev', False)
        v = listing(v)
        return v is not None and len(v) == len(m.S) and \
            frozenset(v) == m.S and [m.labels[x] for x in v] == sorted(
                (m.labels[x] for x in m.S), reverse=reverse)
    check('sortedByLabels of a causet', R, q,
          make('self.sortedByLabels()', [SELF]),
          models(ctx, sets=False), by_label)
    check('sortedByLabels of an event set', R, q,
          make('self.sortedByLabels(S)'), models(ctx, full=False), by_label)
    check('sortedByLabels of an event set in reverse', R, q,
          make('self.sortedByLabels(S, reverse=rev)', [SELF, S, REV]),
          models(ctx, more=True, full=False),
          lambda v, m: by_label(v, m, m.syms['rev']))
    check('sortedByLabels of strings and equal labels', R, q,
          make('self.sortedByLabels(S, rev)', [SELF, S, REV]),
          odd_labels(ctx, False), by_label)
    q = 'Causet.disjoint'
    R = 'the parts are the causally connected components of the set'
    check('disjoint of a causet', R, q, make('self.disjoint()', [SELF]),
          models(ctx, sets=False, labels=False), is_partition)
    check('disjoint of an event set', R, q, make('self.disjoint(S)'),
          models(ctx, labels=False), is_partition)
    check('disjoint of events outside of the causet', R, q,
          make('self.disjoint(S)'), outside(ctx), is_partition)
    q = 'Causet.isDisjoint'
    R = 'a set is disjoint if it has at least two connected components'

    def split(v, m):
        return v is (len(components(m.o, m.S)) > 1)
    check('isDisjoint of a causet', R, q, make('self.isDisjoint()', [SELF]),
          models(ctx, sets=False, labels=False), split)
    check('isDisjoint of an event set', R, q, make('self.isDisjoint(S)'),
          models(ctx, labels=False), split)
    q = 'Causet.layered'
    R = 'the n-th set holds the events at the end of a longest chain of n ' \
        'further events from the past infinity (reversed: to the future ' \
        'infinity)'
    check('layered of a causet', R, q, make('self.layered()', [SELF]),
          models(ctx, sets=False, labels=False),
          lambda v, m: listing(v) == levels(m.o))
    check('layered in reverse', R, q,
          make('self.layered(reverse=True)', [SELF]),
          models(ctx, sets=False, labels=False),
          lambda v, m: listing(v) == levels(m.o, True))
    check('layered of all events', R, q,
          make('self.layered(S, rev)', [SELF, S, REV]),
          lambda: (m for m in models(ctx, labels=False, more=True)()
                   if m.S == m.o.all),
          lambda v, m: listing(v) == levels(m.o, m.syms['rev']))
    check('layered of events outside of the causet', R, q,
          make('self.layered(S)'),
          lambda: (m for m in outside(ctx)() if m.S == m.o.all),
          lambda v, m: listing(v) == levels(m.o))
    q = 'Causet.CentralAntichain'
    R = 'the events are an antichain that no further event of the causet ' \
        'extends'

    def maximal(v, m):
        if isinstance(v, Bag):
            v = frozenset(v.items)
        return isinstance(v, frozenset) and v <= m.o.all and all(
            bool(m.o.cone(x) & v) and (x not in v or
                                       m.o.cone(x) & v == {x})
            for x in m.o.E)
    check('CentralAntichain', R, q, make('self.CentralAntichain()', [SELF]),
          models(ctx, sets=False, labels=False), maximal)
    check('CentralAntichain like an event', R, q,
          make('self.CentralAntichain(e)', [SELF, e]),
          all_cases(ctx, ev=('e',)), maximal)
    return ctx.finish(NOTE, 4)
