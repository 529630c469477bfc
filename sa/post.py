"""Post-states: the relations and links that public queries report after an
operation, and their comparison with the relations the operation stands for."""
from . import terms as t
from .core import Skip, fmt
from .interp import Interp, Unk, Err, Ev, NewObj, Bag

Q = t.bv('q?', 'event')
C = t.bv('c?', 'obj:Causet')


class Post:
    """Public queries on the state in which an operation ended."""
    def __init__(self, ctx, res):
        self.ctx, self.res = ctx, res
        self.outcome = res.outcome
        self.memo = {}

    def term(self, qual, *args, **kw):
        key = (qual, args, tuple(sorted(kw.items())))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.ctx.call(
                qual, list(args), kw, ev=self.res.ev,
                st=self.res.state.copy()).outcome
        return r

    def at(self, I, qual, x, *more):
        term = self.term('CausetEvent.' + qual, Q, *more)
        try:
            return I.ev(term, {'q?': x})
        except Exception as e:
            if type(e).__name__ == 'PyErr':
                return Err(e.name)
            raise

    def label(self, I, x):
        key = 'Label'
        if key not in self.memo:
            ev = self.res.ev
            st = self.res.state.copy()
            self.memo[key] = ev.deref(ev.read_field(st, Q, 'Label'), st)
        return I.ev(self.memo[key], {'q?': x})

    def events(self, I, causet):
        return as_events(I.ev(self.term('Causet.__iter__', C),
                              {'c?': causet}))


def as_events(v):
    if isinstance(v, Err):
        return v
    if isinstance(v, Bag):
        v = v.items
    if isinstance(v, (tuple, list)):
        v = frozenset(v)
    if isinstance(v, frozenset):
        for x in v:
            if not isinstance(x, (Ev, NewObj)):
                raise Unk('no event: %r' % (x,))
        return v
    raise Unk('no set of events: %r' % (v,))


def universe(post, I, roots):
    """All events reachable through past and future."""
    todo = list(roots)
    past, future = {}, {}
    while todo:
        x = todo.pop()
        if x in past:
            continue
        past[x] = as_events(post.at(I, 'Past', x))
        future[x] = as_events(post.at(I, 'Future', x))
        for y in (past[x], future[x]):
            if isinstance(y, Err):
                return x, y
            todo.extend(y)
    return past, future


def mirror(past, future):
    for x in past:
        if x in past[x] or x in future[x]:
            return '%r is related to itself' % (x,)
        for p in past[x]:
            if x not in future[p]:
                return '%r is in the past of %r, which is not in its future' \
                    % (p, x)
        for f in future[x]:
            if x not in past[f]:
                return '%r is in the future of %r, which is not in its ' \
                    'past' % (f, x)
    return None


def covering(past, x):
    """link past of x"""
    return frozenset(a for a in past[x]
                     if not any(a in past[z] for z in past[x]))


def closure(rel):
    """Transitive closure of {event: past}."""
    rel = {x: set(v) for x, v in rel.items()}
    while True:
        more = False
        for x in rel:
            new = set(rel[x])
            for p in rel[x]:
                new |= rel.get(p, set())
            if new != rel[x]:
                rel[x] = new
                more = True
        if not more:
            return {x: frozenset(v) for x, v in rel.items()}


class Op:
    """One operation: its summary and the cases it is decided on.
    cases(m) yields models; want(m, post, I) -> ('skip'|'raise'|'order',
    roots, {event: past} or None)"""
    def __init__(self, name, quals, build, models, want):
        self.name, self.quals = name, quals
        self.build, self.models, self.want = build, models, want
        self.post = None

    def summary(self, ctx):
        if self.post is None:
            self.post = Post(ctx, self.build())
        return self.post


def run(ctx, op, name, rule, check, extra=()):
    """check(post, I, m, roots, want) -> problem or None"""
    def fn():
        post = op.summary(ctx)
        for m in op.models():
            problem = None
            try:
                for perm in range(6 if ctx.thorough else 4):
                    I = Interp(m, perm)
                    try:
                        problem = one(post, I, m)
                    except Skip:
                        problem = Skip
                        break
                    if problem or not I.free_order:
                        break
            except Unk as e:
                yield 'unk', 'value not known: %s' % e
                continue
            if problem is Skip:
                continue
            if problem:
                yield 'bad', 'case: %s -- %s' % (m.desc, problem)
            else:
                yield 'ok', None

    def one(post, I, m):
        out = I.outcome(post.outcome)
        roots, want = op.want(post, I, m, out)
        if isinstance(want, Err):
            if not isinstance(out, Err) or out != want:
                return 'gives %s, required: %r' % (fmt(out), want)
            return None
        if isinstance(out, Err):
            return 'unexpectedly %r' % out
        return check(post, I, m, roots, want, out)
    return ctx.obligation(name, rule, list(op.quals) + list(extra), fn)


def check_mirror(post, I, m, roots, want, out):
    past, future = universe(post, I, roots)
    if isinstance(future, Err):
        return 'Past or Future of %r %r' % (past, future)
    return mirror(past, future)


def check_order(post, I, m, roots, want, out):
    if want is None:
        raise Skip()
    past, future = universe(post, I, roots)
    if isinstance(future, Err):
        return 'Past or Future of %r %r' % (past, future)
    if set(past) != set(want):
        return 'related events are %s, required %s' % (
            fmt(frozenset(past)), fmt(frozenset(want)))
    for x in sorted(past):
        if past[x] != want[x]:
            return 'past of %r is %s, required %s' % (
                x, fmt(past[x]), fmt(want[x]))
    return None


def check_links(post, I, m, roots, want, out):
    past, future = universe(post, I, roots)
    if isinstance(future, Err):
        return 'Past or Future of %r %r' % (past, future)
    if mirror(past, future):
        raise Skip()            # the matter of another property
    if closure(past) != past:
        raise Skip()
    lp = {x: covering(past, x) for x in past}
    for x in sorted(past):
        lf = frozenset(y for y in past if x in lp[y])
        for q, w in (('LinkPast', lp[x]), ('LinkFuture', lf),
                     ('LinkCone', lp[x] | lf)):
            v = as_events(post.at(I, q, x))
            if v != w:
                return '%s of %r is %s, required %s' % (q, x, fmt(v), fmt(w))
            n = post.at(I, q + 'Card', x)
            if n != len(w):
                return '%sCard of %r is %s, required %s' % (q, x, fmt(n),
                                                            len(w))
    return None
