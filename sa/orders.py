"""The finite abstract domain: all order types of at most N events."""
import ast
import functools
import itertools
import random

from .interp import Ev, Obj, Model, Unk


@functools.lru_cache(None)
def order_types(n):
    """All partial orders on n elements up to isomorphism, as frozensets of
    pairs (i, j) with i before j and i < j."""
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    seen = {}
    for bits in range(1 << len(pairs)):
        R = frozenset(p for k, p in enumerate(pairs) if bits >> k & 1)
        if any((i, l) not in R for i, j in R for k, l in R if j == k):
            continue
        canon = min(tuple(sorted((p[i], p[j]) for i, j in R))
                    for p in _perms(n))
        seen.setdefault(canon, R)
    return [seen[k] for k in sorted(seen, key=lambda c: (len(c), c))]


@functools.lru_cache(None)
def _perms(n):
    return list(itertools.permutations(range(n)))


class Order:
    def __init__(self, n, R):
        self.n = n
        self.R = R
        self.E = [Ev(i) for i in range(n)]
        E = self.E
        self.past = {E[j]: frozenset(E[i] for i, k in R if k == j)
                     for j in range(n)}
        self.future = {E[i]: frozenset(E[j] for k, j in R if k == i)
                       for i in range(n)}
        self.lpast = {b: frozenset(a for a in self.past[b]
                                   if not self.future[a] & self.past[b])
                      for b in E}
        self.lfuture = {a: frozenset(b for b in E if a in self.lpast[b])
                        for a in E}
        self.all = frozenset(E)

    def reverse(self):
        """The time-reversed order on the same events."""
        r = object.__new__(Order)
        r.n, r.E, r.all = self.n, self.E, self.all
        r.R = frozenset((j, i) for i, j in self.R)
        r.past, r.future = self.future, self.past
        r.lpast, r.lfuture = self.lfuture, self.lpast
        return r

    def lt(self, a, b):
        return a in self.past[b]

    def le(self, a, b):
        return a is b or a in self.past[b]

    def cone(self, e):
        return self.past[e] | {e} | self.future[e]

    def components(self):
        left = set(self.E)
        out = []
        while left:
            c = {left.pop()}
            while True:
                d = set(c)
                for e in c:
                    d |= self.cone(e)
                if d == c:
                    break
                c = d
            out.append(frozenset(c))
            left -= c
        return out

    def rank(self, a, b):
        """least number of links from a to b"""
        if a is b:
            return 0.0
        if not self.lt(a, b):
            return float('inf')
        d, cur = 0, {a}
        while b not in cur:
            cur = {y for x in cur for y in self.lfuture[x]}
            d += 1
        return float(d)

    def maxchain(self, a, b):
        if not self.le(a, b):
            return 0
        if a is b:
            return 1
        return 1 + max(self.maxchain(x, b) for x in self.lfuture[a]
                       if self.le(x, b))

    def describe(self):
        return 'events %s with %s' % (
            self.E, ', '.join('e%d<e%d' % p for p in sorted(self.R))
            or 'no relations')


@functools.lru_cache(None)
def orders(nmax, nmin=0):
    return [Order(n, R) for n in range(nmin, nmax + 1)
            for R in order_types(n)]


def closure(n, pairs):
    R = set(pairs)
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if (i, k) in R and (k, j) in R:
                    R.add((i, j))
    return frozenset(R)


@functools.lru_cache(None)
def large():
    """Some orders beyond the bound of the complete enumeration: chain,
    antichain, crown, cube, weak order, events with long and short connecting
    chains, several components, two-dimensional orders."""
    out = []

    def add(n, pairs):
        out.append(Order(n, closure(n, pairs)))
    add(7, [(i, i + 1) for i in range(6)])
    add(6, [])
    add(6, [(i, 3 + j) for i in range(3) for j in range(3) if i != j])
    add(8, [(i, i | 1 << k) for i in range(8) for k in range(3)
            if not i >> k & 1])
    add(6, [(0, 1), (0, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 5), (4, 5)])
    add(6, [(0, 1), (0, 2), (1, 5), (2, 5), (0, 3), (3, 4), (4, 5)])
    add(9, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 8), (0, 5), (5, 8), (0, 6),
            (6, 7), (7, 8)])
    add(8, [(0, 1), (1, 2), (2, 3), (4, 5), (4, 6), (5, 7), (6, 7)])
    for P in ((3, 1, 5, 2, 8, 4, 7, 6), (2, 5, 1, 7, 3, 9, 4, 6, 8)):
        add(len(P), [(i, j) for i in range(len(P))
                     for j in range(i + 1, len(P)) if P[i] < P[j]])
    for n in SIZES:
        P = random.Random(n).sample(range(n), n)
        add(n, [(i, i + 1) for i in range(n - 1)])
        add(n, [])
        add(n, [(i, j) for i in range(n)
                for j in range(i + 1, n) if P[i] < P[j]])
    return out


# sizes the analysed source distinguishes, see core.Ctx
SIZES = []


def sizes_in(trees, hi=40):
    """Sizes just above the integers that occur in the source: a path that is
    taken for many events only is reached by these."""
    found = set()
    for tree in trees:
        for c in ast.walk(tree):
            if isinstance(c, ast.Constant) and type(c.value) is int \
                    and 8 <= c.value <= hi:
                found |= {c.value + 1, c.value + 2}
    return sorted(found)[:6]


def some_subsets(o):
    """A few event sets of a large order."""
    E = o.E
    out = [frozenset(), o.all, frozenset(E[:1]), frozenset(E[-1:]),
           frozenset(E[::2]), frozenset(E[1::2]), frozenset(E[1:-1]),
           frozenset((E[0], E[-1])), frozenset(E[:len(E) // 2]),
           frozenset(E[len(E) // 2:]),
           frozenset(e for e in E if not o.past[e]),
           frozenset(e for e in E if not o.future[e]),
           frozenset(e for e in E if o.past[e] and o.future[e]),
           frozenset(E[::3]), o.all - {E[len(E) // 2]}]
    return list(dict.fromkeys(out))


def some_lists(o):
    E = tuple(o.E)
    return [E, E[::-1], E[::2], E[1::2] + E[::2], E[1:-1], E[3:] + E[:3]]


def spread(xs, k):
    """At most k of the items, a fixed choice."""
    xs = list(xs)
    return xs if len(xs) <= k else random.Random(k).sample(xs, k)


def subsets(xs):
    xs = sorted(xs, key=lambda e: e.n)
    for r in range(len(xs) + 1):
        for c in itertools.combinations(xs, r):
            yield frozenset(c)


class Roles:
    """Names of the private fields, resolved from the public accessors."""
    prec = '_prec'
    succ = '_succ'
    events = '_events'
    lprec = '_lprec'
    lsucc = '_lsucc'


def maps(o, roles, linked=frozenset(), C=None, causet=None, labels=None):
    lk = linked
    m = {
        roles.prec: dict(o.past), roles.succ: dict(o.future),
        'has:' + roles.lprec: lambda e: e in lk,
        'has:' + roles.lsucc: lambda e: e in lk,
        roles.lprec: lambda e: o.lpast[e] if e in lk else _unk(),
        roles.lsucc: lambda e: o.lfuture[e] if e in lk else _unk(),
        'has:_coordinates': lambda e: False,
        'has:_position': lambda e: False,
        'has:__diagram_coords': lambda e: False,
        'Label': (lambda e: labels[e]) if labels else
        (lambda e: e.n + 1 if isinstance(e, Ev) else _unk()),
    }
    if causet is not None:
        m[roles.events] = {causet: C}
    return m


def _unk():
    raise Unk('unset field')


CAUSET = Obj('C', 'obj:Causet')


def model(o, roles, syms=None, C=None, linked=frozenset(), labels=None,
          desc=''):
    C = o.all if C is None else C
    m = Model(dict(syms or {}), maps(o, roles, linked, C, CAUSET, labels))
    m.syms.setdefault('self', CAUSET)
    m.o = o
    m.C = C
    m.linked = linked
    m.apps['rank'] = o.rank
    m.apps['sortedByCausality'] = lambda s: tuple(
        sorted(s, key=lambda e: e.n))
    parts = [o.describe()]
    for k in sorted(m.syms):
        if k != 'self':
            v = m.syms[k]
            parts.append('%s=%s' % (k, sorted(v) if isinstance(v, frozenset)
                                    else v))
    if C != o.all:
        parts.append('causet events=%s' % sorted(C))
    if linked:
        parts.append('links remembered by %s' % sorted(linked))
    m.desc = '; '.join(parts) + desc
    return m
