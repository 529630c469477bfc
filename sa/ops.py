"""Operations that build or change relations, each with the relation it has
to leave behind."""
import itertools
import random

import numpy as np

from . import terms as t
from .cases import SELF, a, e, S, T, L, cases, lists
from .core import Skip
from .interp import Ev, NewObj, Obj, Err, Fn, Unk, Model, Interp
from .orders import (orders, subsets, model, order_types, Order, CAUSET,
                     large, some_subsets, spread)
from .post import Op, closure

EMB = t.sym('self', 'obj:EmbeddedCauset')
NEW = t.raw('new', 'CausetEvent0', sort='event')
NEWV = NewObj('CausetEvent0', (), 'event')


def down(o, s):
    return frozenset(x for x in o.E if any(o.le(x, y) for y in s))


def up(o, s):
    return frozenset(x for x in o.E if any(o.le(y, x) for y in s))


def links_choices(o, ctx):
    """who remembers its links before the operation"""
    yield frozenset()
    if o.n > 5:
        yield o.all
        yield frozenset(o.E[1::2])
        yield frozenset(o.E[-1:])
    elif o.n:
        yield o.all
        for x in o.E:
            if o.past[x] or o.future[x] or ctx.thorough:
                yield frozenset([x])


# ---------------------------------------------------------------- events
def ctor(ctx, past, future, lst=False, linked=False, nmax=4):
    args = {}
    for k, flag, s in (('past', past, S), ('future', future, T)):
        if flag:
            args[k] = t.sym(s.args[0], 'list:event') if lst else s
    name = 'CausetEvent(%s)' % ', '.join(sorted(args))
    if lst:
        name += ' from lists'

    def build():
        ev = ctx.evaluator()
        return ctx.call('CausetEvent.__init__', [NEW], dict(args), ev=ev)

    def models():
        top = nmax + (1 if ctx.thorough and not linked else 0)
        small = orders(top if not (past and future) else min(top, 4))
        for o in list(small) + list(large()):
            lks = links_choices(o, ctx) if linked else [frozenset()]
            sub = subsets if o.n <= 5 else lambda E: some_subsets(o) + [
                frozenset([x]) for x in E]
            for lk in lks:
                ps = list(sub(o.E)) if past else [frozenset()]
                fs = list(sub(o.E)) if future else [frozenset()]
                pf = itertools.product(ps, fs)
                if o.n > 5:
                    pf = spread([(p, f) for p, f in pf
                                 if not down(o, p) & up(o, f)],
                                12 if linked else 40)
                for p, f in pf:
                    # an event before its past would be a loop
                    if down(o, p) & up(o, f):
                        continue
                    if lst:
                        syms = {'S': tuple(sorted(p)) + tuple(sorted(p)[:1]),
                                'T': tuple(sorted(f, reverse=True))}
                    else:
                        syms = {'S': p, 'T': f}
                    m = model(o, ctx.roles, syms, linked=lk)
                    m.p, m.f = p, f
                    yield m

    def want(post, I, m, out):
        o = m.o
        lo, hi = down(o, m.p), up(o, m.f)
        rel = {x: o.past[x] | ((lo | {NEWV}) if x in hi else frozenset())
               for x in o.E}
        rel[NEWV] = lo
        return o.E + [NEWV], rel
    return Op(name, ['CausetEvent.__init__'], build, models, want)


def disjoin(ctx, linked=False, nmax=4):
    def build():
        return ctx.call('CausetEvent.disjoin', [e])

    def models():
        for o in orders(nmax + (1 if ctx.thorough else 0), 1) + large():
            for lk in links_choices(o, ctx) if linked else [frozenset()]:
                for x in o.E:
                    yield model(o, ctx.roles, {'e': x}, linked=lk)

    def want(post, I, m, out):
        o, x = m.o, m.syms['e']
        rel = {y: frozenset() if y is x else o.past[y] - {x} for y in o.E}
        return o.E, rel
    return Op('CausetEvent.disjoin', ['CausetEvent.disjoin'], build, models,
              want)


# ---------------------------------------------------------------- causets
def merge(ctx, closed, disjoint=None, causet=False, linked=False, nmax=4):
    kw = {} if disjoint is None else {
        'disjoint': t.TRUE if disjoint else t.FALSE}
    name = 'Causet.merge(%s)' % ('' if disjoint is None else
                                 'disjoint=%s' % disjoint)
    if not closed:
        name += ' of any event sets'
    x, y = (t.sym('A', 'obj:Causet'), t.sym('B', 'obj:Causet')) \
        if causet else (S, T)
    if causet:
        name += ' of causets'

    def build():
        return ctx.call('Causet.merge', [x, y], dict(kw))

    def models():
        for o in orders(nmax + (1 if ctx.thorough else 0)) + large():
            for lk in links_choices(o, ctx) if linked else [frozenset()]:
                ps = subsets(o.E)
                if o.n > 5:
                    ps = o.components() + some_subsets(o)
                for p in ps:
                    if closed:
                        f = o.all - p
                        if up(o, p) & f or down(o, p) & f:
                            continue
                        fs = [f]
                    else:
                        fs = subsets(o.all - p) if o.n <= 5 else spread(
                            some_subsets(o), 6)
                    for f in fs:
                        f = f - p
                        if any(o.lt(u, v) for u in f for v in p):
                            continue
                        syms = {'S': p, 'T': f}
                        if causet:
                            A, B = Obj('A', 'obj:Causet'), \
                                Obj('B', 'obj:Causet')
                            syms = {'A': A, 'B': B}
                        m = model(o, ctx.roles, syms, linked=lk)
                        if causet:
                            m.maps[ctx.roles.events] = {A: p, B: f}
                        m.p, m.f = p, f
                        m.desc += '; merge %s and %s' % (sorted(p),
                                                         sorted(f))
                        yield m

    def want(post, I, m, out):
        o = m.o
        if not closed:
            return o.E, None
        rel = {z: o.past[z] | (m.p if z in m.f and not disjoint
                               else frozenset()) for z in o.E}
        return o.E, rel
    return Op(name, ['Causet.merge'], build, models, want)


def by_label(post, I, m, out, n):
    """the n events of an imported causet, by their number"""
    evs = post.events(I, out)
    d = {}
    for x in evs:
        d.setdefault(post.label(I, x), x)
    if len(evs) != n or set(d) != set(range(1, n + 1)):
        if len(evs) == n:
            raise Unk('labels %s' % sorted(map(repr, d)))
        return None, evs
    return [d[k] for k in range(1, n + 1)], evs


def bool_matrices(k, n):
    for bits in itertools.product((False, True), repeat=k * n):
        yield np.array(bits, dtype=bool).reshape(k, n)


def matrix_models(ctx, square_max=3):
    M = []
    for n in range(0, square_max + 1):
        for k in range(0, n + 1):
            M.extend(bool_matrices(k, n))
    # longer loops, and orders given by their links
    for n in (4, 5) if ctx.thorough else (4,):
        for cyc in itertools.permutations(range(n)):
            if cyc[0] != 0:
                continue
            X = np.zeros((n, n), dtype=bool)
            for i in range(n):
                X[cyc[i], cyc[i - 1]] = True
            M.append(X)
            Y = X.copy()
            Y[cyc[0], cyc[-1]] = False
            M.append(Y)
        for o in orders(n, n):
            for perm in list(itertools.permutations(range(n)))[::5]:
                for rel in (o.past, o.lpast):
                    X = np.zeros((n, n), dtype=bool)
                    for b in o.E:
                        for a_ in rel[b]:
                            X[perm[b.n], perm[a_.n]] = True
                    M.append(X)
    # large orders given by their links, and large loops
    big = list(large()) + [Order(n, frozenset(
        (i, j) for i in range(n) for j in range(i + 1, n)))
        for n in (12, 19)]
    for k, o in enumerate(big):
        n = o.n
        for perm in (list(range(n)), list(range(n))[::-1],
                     random.Random(k).sample(range(n), n)):
            X = np.zeros((n, n), dtype=bool)
            for b in o.E:
                for a_ in o.lpast[b]:
                    X[perm[b.n], perm[a_.n]] = True
            M.append(X)
            if o.past[o.E[-1]]:
                X = X.copy()
                X[perm[min(z.n for z in o.past[o.E[-1]])],
                  perm[n - 1]] = True
                M.append(X)
    for k, n in ((1, 0), (2, 1), (3, 2), (4, 1)):
        M.append(np.zeros((k, n), dtype=bool))
        M.append(np.ones((k, n), dtype=bool))
    return M


def matrix(ctx, future=False, kinds=('bool',)):
    q = 'Causet.FromFutureMatrix' if future else 'Causet.FromPastMatrix'

    def build():
        return ctx.call(q, [t.sym('M', 'array')])

    def models():
        for X in matrix_models(ctx):
            for kind in kinds:
                Y = X if kind == 'bool' else X.astype(int)
                Z = Y.T if future else Y
                m = Model({'M': Z}, {}, 'matrix %s' % Z.astype(int).tolist())
                m.X = X
                for f in ('_coordinates', '_position', ctx.roles.lprec,
                          ctx.roles.lsucc, '__diagram_coords'):
                    m.maps['has:' + f] = lambda x: False
                yield m

    def want(post, I, m, out):
        X = m.X
        k, n = X.shape
        if k > n:
            return [], Err('ValueError')
        rel = closure({i: frozenset(j for j in range(n)
                                    if i < k and X[i, j]) for i in range(n)})
        if any(i in rel[i] for i in rel):
            return [], Err('ValueError')
        if isinstance(out, Err):
            return [], {}
        E, evs = by_label(post, I, m, out, n)
        if E is None:
            return list(evs), {i: i for i in range(n)}
        return list(evs), {E[i]: frozenset(E[j] for j in rel[i])
                           for i in range(n)}
    return Op(q + ('' if kinds == ('bool',) else ' of numbers'), [q], build,
              models, want)


def permutation(ctx, nmax=4):
    def build():
        return ctx.call('Causet.FromPermutation', [t.sym('P', 'list:int')])

    def models():
        for n in range(0, nmax + 1):
            for P in itertools.permutations(range(1, n + 1)):
                yield new_model(ctx, {'P': P}, 'permutation %s' % (P,))

    def want(post, I, m, out):
        P = m.syms['P']
        if isinstance(out, Err):
            return [], {}
        E, evs = by_label(post, I, m, out, len(P))
        if E is None:
            return list(evs), {i: i for i in range(len(P))}
        pos = {v: P.index(v) for v in P}
        return list(evs), {
            E[u - 1]: frozenset(E[w - 1] for w in P
                                if w < u and pos[w] < pos[u]) for u in P}
    return Op('Causet.FromPermutation', ['Causet.FromPermutation'], build,
              models, want)


def new_model(ctx, syms, desc):
    m = Model(dict(syms), {}, desc)
    for f in ('_coordinates', '_position', ctx.roles.lprec,
              ctx.roles.lsucc, '__diagram_coords'):
        m.maps['has:' + f] = lambda x: False
    return m


def relate(ctx, link=None, linked=False, nmax=3):
    kw = {} if link is None else {'link': t.TRUE if link else t.FALSE}
    name = 'EmbeddedCauset.relate(%s)' % (
        '' if link is None else 'link=%s' % link)

    def build():
        return ctx.call('EmbeddedCauset.relate', [EMB], dict(kw))

    def models():
        for o in orders(nmax + (1 if ctx.thorough else 0)):
            # the relations before are those of another order
            olds = [w for w in orders(o.n, o.n)]
            if len(olds) > 4 and not ctx.thorough:
                olds = [olds[0], olds[-1], olds[len(olds) // 2]]
            for w in olds:
                for lk in ([frozenset(), w.all] if linked else
                           [frozenset()]):
                    yield embedded(ctx, w, o, lk)

    def want(post, I, m, out):
        o, E = m.new, m.o.E
        return E, {E[i]: frozenset(E[x.n] for x in o.past[o.E[i]])
                   for i in range(o.n)}
    return Op(name, ['EmbeddedCauset.relate'], build, models, want)


def embedded(ctx, old, new, lk=frozenset(), syms=None, C=None):
    """old relations on embedded events, whose coordinates are ordered as in
    the order `new`"""
    m = model(old, ctx.roles, syms or {}, linked=lk, C=C)
    m.new = new
    m.maps['_coordinates'] = lambda x: (float(x.n),)
    m.maps['has:_coordinates'] = lambda x: True
    m.maps['_spacetime'] = lambda x: Obj('M', 'obj:Spacetime')
    m.desc += '; coordinates ordered as ' + new.describe()

    def causal(x, y):
        i, j = int(np.asarray(x).flat[0]), int(np.asarray(y).flat[0])
        return (new.lt(new.E[i], new.E[j]), new.lt(new.E[j], new.E[i]))
    m.apps['virt:Causality'] = lambda s: Fn(causal)
    return m


def _nothing(ev, args, kwargs, st, fr):
    return t.NONE


# causal relations are no concern of shapes, coordinates and intensities
NO_RELATIONS = {'EmbeddedCauset.relate': _nothing, 'Causet.link': _nothing,
                'Causet.unlink': _nothing}
