"""C03: link queries answer the covering relation of the current state."""
import numpy as np

from .. import ops, terms as t
from ..cases import SELF, a, b, e, S, L, cases, subsets, tb
from ..interp import Interp, Unk, Err
from ..orders import orders, model, large, some_subsets, spread
from ..post import run as run_op, check_links, Op, Post, covering
from ..evalr import pyc

RULE = 'in the state the operation leaves behind, every link query equals ' \
       'the covering relation of the past sets in that state'
READ = 'the value of the query is the covering relation, whichever events ' \
       'remember their links'


def memories(o, ctx):
    """Which events remember their links: all sets for few events."""
    if o.n <= 3:
        yield from subsets(o.E)
    elif o.n >= 6:
        yield from (frozenset(), o.all, frozenset(o.E[::2]))
    else:
        yield frozenset()
        yield o.all
        for x in o.E:
            yield frozenset([x])
            if ctx.thorough:
                yield o.all - {x}


def run(ctx):
    nmax = 5 if ctx.thorough else 4

    def models(ev=(), sets=(), lists=False):
        import itertools

        def gen():
            for o in orders(nmax) + large():
                for lk in memories(o, ctx):
                    sub = subsets(o.E) if o.n < 6 else some_subsets(o)
                    pools = [o.E] * len(ev) + [list(sub)] * len(sets)
                    if lists:
                        pools.append([tuple(o.E), tuple(reversed(o.E)),
                                      tuple(o.E[::2])])
                    chs = itertools.product(*pools)
                    if o.n >= 6:
                        chs = spread(chs, 60 if ctx.thorough else 12)
                    for ch in chs:
                        names = list(ev) + list(sets) + ['L'] * lists
                        yield model(o, ctx.roles, dict(zip(names, ch)),
                                    linked=lk)
        return gen

    def q(qual, args, spec, models, kw={}, post=None, label=''):
        from ..cases import query
        query(ctx, qual, args, kw, models, spec, READ, post=post,
              label=label)

    E = models(ev=('e',))
    for n, f in (('LinkPast', lambda o, x: o.lpast[x]),
                 ('LinkFuture', lambda o, x: o.lfuture[x]),
                 ('LinkCone', lambda o, x: o.lpast[x] | o.lfuture[x])):
        q('CausetEvent.' + n, [e], lambda m, f=f: f(m.o, m.syms['e']), E)
        q('CausetEvent.' + n + 'Card', [e],
          lambda m, f=f: len(f(m.o, m.syms['e'])), E)
    AB = models(ev=('a', 'b'))
    for n, args, f in (
            ('isPastLink', [a, b], lambda o, x, y: y in o.lpast[x]),
            ('isFutureLink', [a, b], lambda o, x, y: y in o.lfuture[x]),
            ('isLinkedTo', [a, b],
             lambda o, x, y: y in o.lfuture[x] | o.lpast[x])):
        q('CausetEvent.' + n, args, lambda m, f=f: f(
            m.o, m.syms['a'], m.syms['b']), AB)
    f = ctx.prog.func('CausetEvent.isLink')
    args = ([pyc(ctx.prog.cls('CausetEvent'))] if f.is_class else []) + [a, b]
    q('CausetEvent.isLink', args,
      lambda m: m.syms['a'] in m.o.lpast[m.syms['b']], AB)
    count = lambda o, s: sum(len(o.lpast[x] & s) for x in s)  # noqa: E731
    q('CausetEvent.LinkCountOf', [S], lambda m: count(m.o, m.syms['S']),
      models(sets=('S',)))
    q('Causet.LinkCount', [SELF, S], lambda m: count(m.o, m.syms['S']),
      models(sets=('S',)))
    q('Causet.LinkCount', [SELF, S], lambda m: count(m.o, m.syms['S']),
      cases(ctx, sets=('S',), sub=True, nmax=3, big=20))
    q('Causet.LinkCount', [SELF], lambda m: count(m.o, m.o.all), models())

    def mat(m, up=False):
        l = m.syms['L']
        M = np.array([[y in m.o.lpast[x] for y in l] for x in l], dtype=bool)
        M = M.reshape(len(l), len(l))
        return M.T if up else M
    q('Causet.LinkPastMatrix', [SELF, L], mat, models(lists=True))
    q('Causet.LinkFutureMatrix', [SELF, L], lambda m: mat(m, True),
      models(lists=True))

    # operations on a state in which links are remembered
    todo = [ops.ctor(ctx, True, False, linked=True),
            ops.ctor(ctx, False, True, linked=True),
            ops.ctor(ctx, True, True, linked=True, nmax=3),
            ops.disjoin(ctx, linked=True),
            ops.merge(ctx, True, linked=True),
            ops.merge(ctx, True, disjoint=True, linked=True),
            ops.relate(ctx, linked=True), ops.relate(ctx, True, linked=True),
            ops.relate(ctx, False, linked=True),
            ops.matrix(ctx), ops.permutation(ctx),
            keep(ctx, 'CausetEvent.link', [e]),
            keep(ctx, 'CausetEvent.unlink', [e]),
            keep(ctx, 'Causet.link', [SELF]),
            keep(ctx, 'Causet.unlink', [SELF])]
    for op in todo:
        run_op(ctx, op, op.name, RULE, check_links)
    histories(ctx)
    return ctx.finish(NOTE, floor=8)


def keep(ctx, qual, args):
    """An operation that leaves the relations as they are."""
    def build():
        return ctx.call(qual, args)

    def models():
        for o in orders(5 if ctx.thorough else 4, 1) + large():
            for lk in memories(o, ctx):
                xs = o.E if args[0] is e else o.E[:1]
                for x in spread(xs, 2) if o.n >= 6 else xs:
                    yield model(o, ctx.roles, {'e': x}, linked=lk)

    def want(post, I, m, out):
        return m.o.E, m.o.past
    return Op(qual, [qual], build, models, want)


def histories(ctx):
    """From events without memory: link, forget, change, ask."""
    PRE = {
        'linked': [('Causet.link', [SELF])],
        'linked, one forgets': [('Causet.link', [SELF]),
                                ('CausetEvent.unlink', [a])],
        'one linked': [('CausetEvent.link', [a])],
        'linked and unlinked': [('Causet.link', [SELF]),
                                ('Causet.unlink', [SELF])],
    }
    for name, pre in PRE.items():
        for mk in (lambda: ops.ctor(ctx, True, False, nmax=3),
                   lambda: ops.ctor(ctx, False, True, nmax=3),
                   lambda: ops.disjoin(ctx, nmax=3),
                   lambda: ops.merge(ctx, True, nmax=3)):
            op = mk()
            op2 = history(ctx, op, pre)
            run_op(ctx, op2, '%s, then %s' % (name, op.name), RULE,
                   check_links)


def history(ctx, op, pre):
    calls = []
    # the arguments of the operation itself
    real = ctx.call

    def record(qual, args=(), kwargs=None, overrides=None, st=None, ev=None):
        calls.append((qual, args, kwargs))
        raise Recorded()
    ctx.call = record
    try:
        op.build()
    except Recorded:
        pass
    finally:
        ctx.call = real
    qual, args, kw = calls[0]

    def build():
        ev = ctx.evaluator()
        st = None
        for q, xs in pre:
            st = ctx.call(q, xs, ev=ev, st=st).state
        return ctx.call(qual, args, kw, ev=ev, st=st)

    def models():
        for m in op.models():
            if not m.o.E:
                continue
            for x in spread(m.o.E, 1 if m.o.n >= 6 else 9):
                m.syms['a'] = x
                m.desc2 = m.desc
                yield m
                if not any(y == ('CausetEvent.unlink', [a]) or
                           y == ('CausetEvent.link', [a]) for y in pre):
                    break
    return Op(op.name, op.quals + [q for q, _ in pre], build, models,
              op.want)


class Recorded(Exception):
    pass


NOTE = ('Summary of every link query and of the link memory after every '
        'operation, evaluated on all order types of the bound with every '
        'event linked or not: links are the covering relation.')
