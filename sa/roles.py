"""Private field names and contracts, resolved from the public accessors."""
from . import terms as t
from .terms import TRUE, FALSE, const, and_, or_, not_
from .orders import Roles
from .program import AnchorError


def _field(v):
    if v.op == 'sel' and v.args[0].op == 'map0':
        return v.args[0].args[0]
    return None


def resolve(ctx):
    r = Roles()
    e = t.sym('e', 'event')
    c = t.sym('self', 'obj:Causet')
    ev = ctx.evaluator()
    for attr, q in (('prec', 'CausetEvent.Past'), ('succ',
                                                   'CausetEvent.Future')):
        f = _field(ev.run(ctx.prog.func(q), [e]).value)
        if f:
            setattr(r, attr, f)
    f = _field(ev.run(ctx.prog.func('Causet.__iter__'), [c]).value)
    if f:
        r.events = f
    # link memory: optional fields set by CausetEvent.link
    try:
        ev = ctx.evaluator()
        res = ev.run(ctx.prog.func('CausetEvent.link'), [e])
        fs = [k[4:] for k in res.state.heap if k.startswith('has:') and
              res.state.heap[k].op != 'map0']
        if len(fs) == 2 and not (set(fs) == {r.lprec, r.lsucc}):
            fs.sort(key=lambda k: 0 if _uses(res.state.heap[k], r.prec)
                    else 1)
            r.lprec, r.lsucc = fs
    except AnchorError:
        raise
    except Exception:
        pass
    return r


def _uses(term, field):
    # the source of the image: events of the past or of the future
    for x in t.subterms(term):
        if x.op == 'img':
            return _field(x.args[1]) == field
    return False


# ------------------------------------------------------------- contracts
def link_contracts(ctx):
    """Trusted meaning of the event-level link queries (decided by C03)."""
    r = ctx.roles

    def lp(ev, e, st, up=False):
        src = ev.deref(ev.read_field(st, e, r.succ if up else r.prec), st)
        v = t.fresh_name('l')
        a = t.bv(v, 'event')
        lo, hi = (e, a) if up else (a, e)
        between = t.inter(ev.deref(ev.read_field(st, lo, r.succ), st),
                          ev.deref(ev.read_field(st, hi, r.prec), st))
        return t.binder('img', v, src, not_(t.exists(
            t.fresh_name('z'), ev.resolve(between, st), TRUE)), a,
            sort='set:event')

    def LinkPast(ev, a, k, st, fr):
        return lp(ev, ev.deref(a[0], st), st)

    def LinkFuture(ev, a, k, st, fr):
        return lp(ev, ev.deref(a[0], st), st, True)

    def LinkCone(ev, a, k, st, fr):
        return t.union(LinkPast(ev, a, k, st, fr), LinkFuture(ev, a, k, st,
                                                              fr))

    def arg(a, k):
        return a[1] if len(a) > 1 else k['other']
    return {
        'CausetEvent.LinkPast': LinkPast,
        'CausetEvent.LinkFuture': LinkFuture,
        'CausetEvent.LinkCone': LinkCone,
        'CausetEvent.LinkPastCard': lambda *x: t.size(LinkPast(*x)),
        'CausetEvent.LinkFutureCard': lambda *x: t.size(LinkFuture(*x)),
        'CausetEvent.LinkConeCard': lambda *x: t.size(LinkCone(*x)),
        'CausetEvent.isPastLink': lambda ev, a, k, st, fr: t.mem(
            arg(a, k), LinkPast(ev, a, k, st, fr)),
        'CausetEvent.isFutureLink': lambda ev, a, k, st, fr: t.mem(
            arg(a, k), LinkFuture(ev, a, k, st, fr)),
        'CausetEvent.isLinkedTo': lambda ev, a, k, st, fr: t.mem(
            arg(a, k), LinkCone(ev, a, k, st, fr)),
    }


def rank_contract(ctx):
    def Rank(ev, a, k, st, fr):
        b = a[1] if len(a) > 1 else k['other']
        return t.app('rank', ev.deref(a[0], st), ev.deref(b, st), sort='num')
    return {'CausetEvent.Rank': Rank}


def sort_contract(ctx):
    def sbc(ev, a, k, st, fr):
        s = None
        if len(a) > 1:
            s = a[1]
        elif 'eventSet' in k:
            s = k['eventSet']
        if s is None or s is t.NONE:
            s = ev.read_field(st, ev.deref(a[0], st), ctx.roles.events)
        s = ev.resolve(ev.deref(s, st), st)
        if s.op == 'ite' or len(a) > 2 or 'reverse' in k:
            from .evalr import opaque
            return opaque('sortedByCausality', 'list:event')
        return t.app('sortedByCausality', s, sort='list:event')
    return {'Causet.sortedByCausality': sbc}
