"""Reference for distances along antichains."""
import itertools

import numpy as np

from .checks.c13 import measure, numset
from .orders import SIZES, Order, orders, model


def closed(n, pairs):
    R = set(pairs)
    while True:
        new = {(i, l) for i, j in R for k, l in R if j == k} - R
        if not new:
            return Order(n, frozenset(R))
        R |= new


def special():
    """Antichains that are joined step by step."""
    out = []
    for k in (3, 4, 5, 6):
        # a fence over (and one under) the antichain 0 .. k-1
        out.append((closed(2 * k - 1, [(i, k + j) for j in range(k - 1)
                                       for i in (j, j + 1)]), k, 0))
        out.append((closed(2 * k - 1, [(j, k - 1 + i) for j in range(k - 1)
                                       for i in (j, j + 1)]), k, k - 1))
    for k in SIZES[:2]:
        out.append((closed(2 * k - 1, [(i, k + j) for j in range(k - 1)
                                       for i in (j, j + 1)]), k, 0))
    # up and down in turn
    out.append((closed(7, [(0, 2), (0, 3), (1, 4), (1, 5), (3, 6), (4, 6)]),
                4, 2))
    # a crown
    out.append((closed(8, [(i, 4 + j) for j in range(4)
                           for i in (j, (j + 1) % 4)]), 4, 0))
    out.append((closed(14, [(i, 7 + j) for j in range(7)
                            for i in (j, (j + 1) % 7)]), 7, 0))
    # joined by longer intervals
    out.append((closed(5, [(0, 2), (1, 3), (2, 4), (3, 4)]), 2, 0))
    out.append((closed(7, [(0, 3), (1, 3), (1, 4), (2, 5), (4, 6), (5, 6)]),
                3, 0))
    out.append((closed(8, [(0, 4), (1, 4), (1, 5), (2, 6), (5, 7), (6, 7)]),
                4, 0))
    out.append((closed(8, [(0, 2), (1, 3), (2, 4), (3, 5), (1, 6), (2, 7)]),
                4, 4))
    # several events between
    out.append((closed(7, [(0, 3), (1, 3), (2, 4), (1, 4), (3, 5), (4, 5),
                           (5, 6)]), 3, 0))
    return out


def antichains(o):
    from .orders import subsets
    for s in subsets(o.E):
        if not any(o.lt(x, y) for x in s for y in s):
            yield tuple(sorted(s))


def cases(ctx, nmax=4, rev=True):
    def gen():
        for o in orders(nmax + (1 if ctx.thorough else 0)):
            for l in antichains(o):
                yield model(o, ctx.roles, {'L': l})
                if len(l) == 3 and rev:
                    yield model(o, ctx.roles, {'L': (l[1], l[2], l[0])})
        o = special()[6][0]         # a fence in another order
        yield model(o, ctx.roles, {'L': tuple(
            o.E[i] for i in (3, 1, 4, 0, 2, 5))})
        for o, k, first in special():
            E = o.E
            l = tuple(E[first:first + k])
            if any(o.lt(x, y) for x in l for y in l):
                continue
            perms = [l, l[::-1]] if k != 6 else [l]
            if k < 5 or ctx.thorough and k < 7:
                perms += [l[1::2] + l[::2], l[2:] + l[:2]]
            for p in perms:
                yield model(o, ctx.roles, {'L': p})
    return gen


def smallest(o, x, y, within, A):
    """events of A in the smallest interval over x and y, 0 if there is none
    within the slice"""
    P = o.past[x] & o.past[y] & within
    F = o.future[x] & o.future[y] & within
    if not P and not F:
        return 0
    if not P:
        return min(len(o.past[f] & A) for f in F)
    if not F:
        return min(len(o.future[p] & A) for p in P)
    return min(len(((o.future[p] & o.past[f]) | {p, f}) & A)
               for p in P for f in F)


def thicker(o, s):
    return numset(o, s, measure('layer'), -1, 1)


def distances(o, l, ziczac=True, recursive=True):
    n = len(l)
    D = np.zeros((n, n), dtype=int)
    A = frozenset(l)
    s, nxt = A, thicker(o, A)
    while len(s) < len(nxt):
        s = nxt
        for i, j in itertools.combinations(range(n), 2):
            if D[i, j] < 1:
                d = smallest(o, l[i], l[j], s, A) - 1
                D[i, j] = D[j, i] = min(d, 1) if ziczac else d
        if not recursive:
            break
        for k in range(1, n):
            for i in range(n):
                for j in range(n):
                    if D[i, j] < 0 and any(D[i, m] == k and D[m, j] == 1
                                           for m in range(n)):
                        D[i, j] = D[j, i] = k + 1
        nxt = thicker(o, s)
    return D
