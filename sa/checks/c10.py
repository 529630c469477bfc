"""C10: causet set operations."""
from .. import terms as t
from ..cases import SELF, S, T, L, e, cases, query, as_set
from ..core import Skip
from ..evalr import State
from ..interp import Interp, Unk, Err, Obj, Bag
from ..orders import orders, subsets, model, CAUSET

RULE = 'value graph of the operation = the set-theoretic result for the ' \
       'operands in the written order'
OTHER = t.sym('other', 'obj:Causet')

OPS = {
    '__sub__': lambda c, o: c - o, '__rsub__': lambda c, o: o - c,
    '__or__': lambda c, o: c | o, '__ror__': lambda c, o: c | o,
    '__and__': lambda c, o: c & o, '__rand__': lambda c, o: c & o,
    '__xor__': lambda c, o: c ^ o, '__rxor__': lambda c, o: c ^ o,
    'difference': lambda c, o: c - o, 'intersection': lambda c, o: c & o,
    'symmetric_difference': lambda c, o: c ^ o, 'union': lambda c, o: c | o,
}


def run(ctx):
    n = 4 if ctx.thorough else 3
    other = Obj('D', 'obj:Causet')
    r = ctx.roles

    def pairs(kind):
        def gen():
            # membership only: the relations do not matter
            for k in range(n + 1):
                o = [x for x in orders(k, k) if not x.R][0]
                for C in subsets(o.E):
                    for D in subsets(o.E):
                        syms = {}
                        if kind == 'list':
                            l = tuple(sorted(D, key=lambda x: x.n))
                            syms['L'] = l + l[:1]
                        elif kind == 'causet':
                            syms['other'] = other
                        else:
                            syms['S'] = D
                        m = model(o, r, syms, C=C)
                        m.D = D
                        m.maps[r.events] = {CAUSET: C, other: D}
                        m.desc += '; operand %s' % sorted(D)
                        yield m
        return gen

    kinds = (('set', S), ('list', L), ('causet', OTHER))
    for q, f in OPS.items():
        for kind, arg in kinds:
            query(ctx, 'Causet.' + q, [SELF, arg], {}, pairs(kind),
                  lambda m, f=f: f(m.C, m.D), RULE, label='with a ' + kind,
                  post=as_set)
    query(ctx, 'Causet.__contains__', [SELF, e], {},
          cases(ctx, ev=('e',), sub=True, nmax=3),
          lambda m: m.syms['e'] in m.C, RULE)

    # adding and discarding, with and without unlinking
    for q, f in (('add', lambda c, o: c | o), ('discard', lambda c, o: c - o)):
        for kind, arg in kinds:
            for kw in ({}, {'unlink': t.TRUE}, {'unlink': t.FALSE}):
                for view, get in VIEWS.items():
                    if kind != 'set' and view != 'iteration':
                        continue
                    if kw and view not in ('iteration', 'count'):
                        continue
                    after(ctx, 'Causet.' + q, arg, kw, kind, pairs(kind), f,
                          view, get)
    # search by label
    x, y = t.sym('x', 'any'), t.sym('y', 'any')

    def labelled():
        for k in range(4):
            o = [z for z in orders(k, k) if not z.R][0]
            for C in subsets(o.E):
                for lab in ({z: z.n + 1 for z in o.E},
                            {z: z.n // 2 + 1 for z in o.E},
                            {z: (1, '1', 'a', None)[z.n] for z in o.E},
                            {z: ('ab', 'a', 2)[z.n % 3] for z in o.E},
                            {z: (0, '', 1)[z.n % 3] for z in o.E}):
                    vs = list(range(1, k + 2))
                    if any(not isinstance(v, int) for v in lab.values()):
                        vs = [1, '1', 'a', None]
                    if 0 in lab.values():
                        vs = [0, '', 1]
                    for v in vs:
                        for w in vs:
                            m = model(o, r, {'x': v, 'y': w}, C=C,
                                      labels=lab)
                            m.lab = lab
                            m.desc += '; labels %s' % lab
                            yield m

    def hit(m, *vs):
        return frozenset(z for z in m.C if m.lab[z] in vs)
    query(ctx, 'Causet.findAll', [SELF, x, y], {}, labelled,
          lambda m: hit(m, m.syms['x'], m.syms['y']), RULE, post=as_set)
    query(ctx, 'Causet.findAny', [SELF, x, y], {}, labelled,
          lambda m: hit(m, m.syms['x'], m.syms['y']), RULE, post=as_set)

    for q in ('findAll', 'findAny'):
        query(ctx, 'Causet.' + q, [SELF, x], {}, labelled,
              lambda m: hit(m, m.syms['x']), RULE, post=as_set,
              label='one label')
        query(ctx, 'Causet.' + q, [SELF], {}, labelled,
              lambda m: frozenset(), RULE, post=as_set, label='no label')

    def some(got, want):
        if not want:
            return got == Err('ValueError')
        return got in want

    def one(m):
        h = hit(m, m.syms['x'])
        if len(h) > 1:
            raise Skip()        # any of them is right
        return h
    query(ctx, 'Causet.find', [SELF, x], {}, labelled, one, RULE, cmp=some)
    # histories: construct, ask, change, ask again
    for q, f in (('add', lambda c, o: c | o), ('discard', lambda c, o: c - o)):
        for view, get in VIEWS.items():
            history(ctx, q, f, view, get)
    return ctx.finish(
        'The twelve set operations, adding, discarding, membership, '
        'iteration, counting and label search are summarised from the source '
        'and compared with set algebra for every pair of subsets of up to %d '
        'events (membership formulas over three sets have at most eight '
        'Boolean atoms per event, so larger sets add no case); the operand '
        'is given as set, list and causet. Views are also compared after '
        'construction, a first query, and a change, so that remembered '
        'values count.' % n, floor=15)


def _find_all(ctx, ev, c, st):
    xs = [t.const(k) for k in range(1, 7)]
    return ev.run(ctx.prog.func('Causet.findAll'), [c] + xs, {}, st=st)


VIEWS = {
    'iteration': lambda ctx, ev, c, st: ev.run(
        ctx.prog.func('Causet.__iter__'), [c], {}, st=st),
    'count': lambda ctx, ev, c, st: ev.run(
        ctx.prog.func('Causet.Card'), [c], {}, st=st),
    'len': lambda ctx, ev, c, st: ev.run(
        ctx.prog.func('Causet.len'), [c], {}, st=st),
    'membership': lambda ctx, ev, c, st: ev.run(
        ctx.prog.func('Causet.__contains__'), [c, e], {}, st=st),
    'labels': _find_all,
    'union': lambda ctx, ev, c, st: ev.run(
        ctx.prog.func('Causet.__or__'), [c, t.sset()], {}, st=st),
}


def view_spec(view, want, m):
    if view in ('count', 'len'):
        return len(want)
    if view == 'membership':
        return m.syms['e'] in want
    return want


def view_post(view):
    return None if view in ('count', 'len', 'membership') else as_set


def with_e(models, view):
    def gen():
        for m in models():
            if view != 'membership':
                yield m
                continue
            for z in m.o.E:
                m.syms['e'] = z
                yield m
    return gen


def after(ctx, qual, arg, kw, kind, models, f, view, get):
    def build():
        ev = ctx.evaluator()
        res = ctx.call(qual, [SELF, arg], kw, ev=ev)
        v = get(ctx, ev, SELF, res.state)
        ctx.functions |= ev.inlined
        return v
    nm = '%s of a %s%s, then %s' % (
        qual, kind, ' with unlink=%s' % t.cval(kw['unlink']) if kw else '',
        view)
    ctx.decide(nm, 'membership after the change differs by exactly the '
               'given events', [qual], build, with_e(models, view),
               lambda m: view_spec(view, f(m.C, m.D), m),
               post=view_post(view))


def history(ctx, q, f, view, get):
    def build():
        ev = ctx.evaluator()
        st = State()
        new = t.raw('new', 'Causet0', sort='obj:Causet')
        r0 = ev.run(ctx.prog.func('Causet.__init__'), [new, S], {}, st=st)
        st = r0.state
        for g in VIEWS.values():
            st = g(ctx, ev, new, st).state
        st = ev.run(ctx.prog.func('Causet.' + q), [new, T], {}, st=st).state
        v = get(ctx, ev, new, st)
        ctx.functions |= ev.inlined
        return v

    def models():
        for k in range(4):
            o = [z for z in orders(k, k) if not z.R][0]
            for A in subsets(o.E):
                for B in subsets(o.E):
                    yield model(o, ctx.roles, {'S': A, 'T': B}, C=A)
    ctx.decide('construct, query, %s, then %s' % (q, view),
               'membership after the change differs by exactly the given '
               'events', ['Causet.' + q], build, with_e(models, view),
               lambda m: view_spec(view, f(m.syms['S'], m.syms['T']), m),
               post=view_post(view))
