"""Loop summaries.

The body of a loop is evaluated ONCE, for a generic element and a generic
state before the iteration; the effect of the whole loop is then given by a
closed binder term when the update of every changed variable has one of the
accumulation forms below.  No loop is ever unrolled (except over a literal
tuple of the source text); an update without a rule becomes `opaque`.
"""
import ast

from . import terms as t
from .terms import TRUE, FALSE, NONE, const, ite, and_, or_, not_, T

UNROLL = 24


class NoRule(Exception):
    pass


# --------------------------------------------------------------- domains
class Dom:
    """Iteration domain: bound variable, source, condition, element."""
    def __init__(self, var, src, cond, elem, inner=None):
        self.var, self.src, self.cond, self.elem = var, src, cond, elem
        self.inner = inner      # a second domain (flattened lists)


def domain(ev, src):
    if src.op == 'lmap':
        v = t.fresh_name('x')
        s = _src_sort(src.args[1])
        b = t.bv(v, s)
        m = {src.args[0]: b}
        return Dom(v, src.args[1], t.subst(src.args[2], m),
                   t.subst(src.args[3], m))
    if src.op == 'img':
        v = t.fresh_name('x')
        if t.is_old(src):
            t.OLD.add(v)
        return Dom(v, src, TRUE, t.bv(v, t.esort(src)))
    if src.op == 'app' and src.args[0] == 'enumerate':
        L = src.args[1]
        v = t.fresh_name('i')
        i = t.bv(v, 'int')
        start = src.args[2] if len(src.args) > 2 else const(0)
        return Dom(v, t.raw('range', const(0), t.size(L), const(1),
                            sort='list:int'), TRUE,
                   t.lst(t.add(i, start), list_idx(L, i)))
    if src.op == 'app' and src.args[0] == 'zip' and len(src.args) > 1:
        v = t.fresh_name('i')
        i = t.bv(v, 'int')
        n = t.size(src.args[1])
        for L in src.args[2:]:
            m = t.size(L)
            n = n if n is m else t.app('min2', n, m, sort='int')
        return Dom(v, t.raw('range', const(0), n, const(1), sort='list:int'),
                   TRUE, t.lst(*[list_idx(L, i) for L in src.args[1:]]))
    v = t.fresh_name('x')
    if t.is_old(src):
        t.OLD.add(v)
    return Dom(v, src, TRUE, t.bv(v, _src_sort(src)))


def _src_sort(src):
    if src.op == 'range':
        return 'int'
    if src.op == 'app' and src.args[0] in ('items', 'combinations',
                                           'product'):
        s = t.esort(src)
        return s if s.startswith('list') else 'list'
    s = t.esort(src)
    if s == 'any' and src.sort == 'array':
        return 'any'
    return s


def list_idx(L, i):
    if L.op == 'lmap' and L.args[2] is TRUE and L.args[1].op == 'range' and \
            L.args[1].args[0] is const(0) and L.args[1].args[2] is const(1):
        return t.subst(L.args[3], {L.args[0]: i})
    if L.sort.startswith('set'):
        return t.idx(t.raw('tolist', L, sort='list' + L.sort[3:]), i)
    return t.idx(L, i)


# ----------------------------------------------------------- bookkeeping
def _snapshot(ev, fr):
    return (len(fr.exits), len(ev.calls), len(ev.arg_mutations), fr.pc)


def _rollback(ev, fr, snap):
    del fr.exits[snap[0]:]
    del ev.calls[snap[1]:]
    del ev.arg_mutations[snap[2]:]
    fr.pc = snap[3]


def _changed(a, b):
    """Keys of the state that differ between a and b (existing in a)."""
    ks = set()
    for fid, env in a.frames.items():
        e2 = b.frames.get(fid, {})
        for n in set(env) | set(e2):
            if env.get(n, t.UNBOUND) is not e2.get(n, t.UNBOUND):
                ks.add(('v', fid, n))
    for fid in set(a.heap) | set(b.heap):
        from .evalr import initial_map
        x, y = a.heap.get(fid), b.heap.get(fid)
        if x is None:
            x = initial_map(fid)
        if y is None:
            y = initial_map(fid)
        if x is not y:
            ks.add(('h', fid))
    for r in a.refs:
        if b.refs.get(r) is not a.refs[r]:
            ks.add(('r', r))
    return ks


def _get(st, k):
    if k[0] == 'v':
        return st.frames.get(k[1], {}).get(k[2], t.UNBOUND)
    if k[0] == 'h':
        from .evalr import initial_map
        return st.heap.get(k[1]) or initial_map(k[1])
    return st.refs[k[1]]


def _set(st, k, v):
    if k[0] == 'v':
        st.frames.setdefault(k[1], {})[k[2]] = v
    elif k[0] == 'h':
        st.heap[k[1]] = v
    else:
        st.refs[k[1]] = v


def _carry_sort(v):
    s = v.sort
    if s == 'none':
        return 'any'
    if t.empty(v):
        return s + ':bot'       # no element yet: any element sort joins
    return s


def _mk_carry(ev, st, k, tag, cur_sort=None):
    v = _get(st, k)
    if k[0] == 'h':
        from .evalr import _field_sorts
        s = 'bool' if k[1].startswith('has:') else \
            _field_sorts.get(k[1], 'any')
        return t.map0('%s@%s' % (k[1], tag), s)
    if v is t.UNBOUND or (v.op == 'ite' and ev.unbound_cond(v) is not FALSE):
        return t.UNBOUND
    return t.sym('carry:%s:%s' % (tag, '.'.join(map(str, k))),
                 cur_sort or _carry_sort(ev.deref(v, st)))


def free_of(x, atoms):
    """x contains none of the given atomic terms."""
    if not isinstance(x, T):
        return True
    for y in t.subterms(x):
        if y in atoms:
            return False
    return True


class Body:
    """One generic iteration: state before/after, exits."""


def run_body(ev, fr, st, setup, body, dom_var, keep_refs=False):
    """Evaluates the body with generic carries for all that it changes."""
    changed = set()
    sorts = {}
    forced = {}       # not assigned before the loop, but read in it
    for attempt in range(10):
        snap = _snapshot(ev, fr)
        s0 = st.copy()
        tag = t.fresh_name('k')
        carries = {}
        for k in sorted(changed, key=str):
            c = _mk_carry(ev, s0, k, tag, sorts.get(k))
            if k in forced:
                c = t.sym('carry:%s:%s' % (tag, '.'.join(map(str, k))),
                          forced[k])
            carries[k] = c
            _set(s0, k, c)
        s1 = s0.copy()
        pc0 = fr.pc
        fr.pc = TRUE
        base = len(fr.exits)
        for v in dom_var:
            ev.loop_vars.append(v)
        try:
            setup(fr, s1)
            body(fr, s1)
        finally:
            for v in dom_var:
                ev.loop_vars.pop()
        exits = fr.exits[base:]
        del fr.exits[base:]
        endpc = fr.pc
        ends = [(endpc, s1)] if endpc is not FALSE else []
        others = []
        for e in exits:
            if e.kind == 'continue':
                ends.append((e.cond, e.state))
            else:
                others.append(e)
        # joined state at the end of a normal iteration
        from .evalr import join_states
        if ends:
            s_end = ends[0][1]
            c_end = ends[0][0]
            for c, s in ends[1:]:
                s_end = join_states(c, s, s_end)
                c_end = or_(c_end, c)
        else:
            s_end, c_end = None, FALSE
        new = set(changed)
        if s_end is not None:
            new |= _changed(s0, s_end)
        for e in others:
            new |= _changed(s0, e.state)
        # sort refinement (0 -> num ...)
        resort = False
        for k in new:
            if k[0] == 'h' or s_end is None:
                continue
            v0 = _get(st, k)
            if v0 is t.UNBOUND:
                if k[0] == 'v' and k[1:] in ev.unbound_reads:
                    v1 = ev.strip_unbound(s_end.frames.get(k[1], {}).get(
                        k[2], t.UNBOUND))
                    if v1 is t.UNBOUND:
                        continue
                    js = ev.deref(v1, s_end).sort
                    if k in forced:
                        js = _join_carry_sort(forced[k], js)
                    if forced.get(k) != js:
                        forced[k] = js
                        resort = True
                continue
            v1 = s_end.refs.get(k[1]) if k[0] == 'r' else \
                s_end.frames.get(k[1], {}).get(k[2], t.UNBOUND)
            if v1 is None or v1 is t.UNBOUND:
                continue
            sa = sorts.get(k) or _carry_sort(ev.deref(v0, st))
            sb = ev.deref(v1, s_end).sort
            js = _join_carry_sort(sa, sb)
            if js != sa:
                sorts[k] = js
                resort = True
        if new == changed and not resort:
            b = Body()
            b.s0, b.end, b.cend = s0, s_end, c_end
            b.exits = others
            b.carries = carries
            b.forced = set(forced)
            b.tag = tag
            b.calls = ev.calls[snap[1]:]
            fr.pc = pc0
            return b
        _rollback(ev, fr, snap)
        changed = new
    raise NoRule('unstable')


def _join_carry_sort(a, b):
    if a == b:
        return a
    if {a, b} <= {'int', 'bool'} or a == 'int' and b == 'bool':
        return 'int'
    if a in ('int', 'num') and b in ('int', 'num'):
        return 'num'
    if a.endswith(':bot') and b.split(':')[0] == a.split(':')[0]:
        return b
    if b.endswith(':bot') and b.split(':')[0] == a.split(':')[0]:
        return a
    if a == 'set' and b.startswith('set'):
        return b
    if a == 'list' and b.startswith('list'):
        return b
    if a.startswith('set') and b == 'set' or a.startswith('list') and \
            b == 'list':
        return a
    if a.split(':')[0] == b.split(':')[0]:
        return a.split(':')[0]
    return 'any'


# --------------------------------------------------------------- updates
def lmap(var, src, cond, body):
    if src is t.EMPTY or cond is FALSE or src.op == 'lst' and not src.args:
        return t.lst()
    return t.binder('lmap', var, src, cond, body,
                    sort='list:' + body.sort if body.sort != 'any'
                    else 'list')


def reduce_(name, var, src, cond, body, *rest, sort='any'):
    return t.app(name, lmap(var, src, cond, body), *rest, sort=sort)


class Upd:
    """Composite of updates  c -> op(c, V) under conditions."""


def updates(F, c, atoms, cond=TRUE):
    """List of (op, cond, value) so that F = the sequential application of
    the operations to c; raises NoRule."""
    if F is c:
        return []
    op = F.op
    if op == 'ite':
        g, a, b = F.args
        if not free_of(g, atoms):
            # absorption:  c - {f} where f in c, c | {f} where f not in c
            r = absorb(g, a, b, c, atoms)
            if r is not None:
                return updates(r, c, atoms, cond)
            # absorption:  ite(f in c, c, c | {f})
            if a is c and g.op == 'mem' and g.args[1] is c and \
                    b.op == 'union' and b.args[0] is c and \
                    b.args[1].op == 'set' and b.args[1].args == (g.args[0],):
                return [('union', cond, b.args[1])]
            # max/min written as a conditional
            if g.op in ('lt', 'le'):
                x, y = g.args
                if b is c and a is y and x is c:
                    return [('max', cond, a)]
                if b is c and a is x and y is c:
                    return [('min', cond, a)]
                if a is c and b is y and x is c:
                    return [('min', cond, b)]
                if a is c and b is x and y is c:
                    return [('max', cond, b)]
            raise NoRule('condition depends on the carry')
        if free_of(a, atoms) and not isinstance(a, str) and b is c:
            return [('set', and_(cond, g), a)]
        if free_of(b, atoms) and a is c:
            return [('set', and_(cond, not_(g)), b)]
        return updates(a, c, atoms, and_(cond, g)) + \
            updates(b, c, atoms, and_(cond, not_(g)))
    if op == 'union':
        for x, y in ((F.args[0], F.args[1]), (F.args[1], F.args[0])):
            if free_of(y, atoms):
                return updates(x, c, atoms, cond) + [('union', cond, y)]
    if op in ('diff', 'inter') and free_of(F.args[1], atoms):
        return updates(F.args[0], c, atoms, cond) + [(op, cond, F.args[1])]
    if op == 'inter' and free_of(F.args[0], atoms):
        return updates(F.args[1], c, atoms, cond) + [(op, cond, F.args[0])]
    if op in ('add', 'mul'):
        lists = F.sort.startswith('list')
        if free_of(F.args[1], atoms):
            return updates(F.args[0], c, atoms, cond) + \
                [('cat' if lists else op, cond, F.args[1])]
        if not lists and F.sort != 'str' and free_of(F.args[0], atoms):
            return updates(F.args[1], c, atoms, cond) + \
                [(op, cond, F.args[0])]
    if op == 'sub' and free_of(F.args[1], atoms):
        return updates(F.args[0], c, atoms, cond) + \
            [('add', cond, t.neg(F.args[1]))]
    if op == 'or':
        rest = [x for x in F.args if x is not c]
        if len(rest) < len(F.args) and all(free_of(x, atoms) for x in rest):
            return [('or', cond, or_(*rest))]
    if op == 'and':
        rest = [x for x in F.args if x is not c]
        if len(rest) < len(F.args) and all(free_of(x, atoms) for x in rest):
            return [('and', cond, and_(*rest))]
    if op == 'fillL' and free_of(F.args[1], atoms):
        return updates(F.args[0], c, atoms, cond) + [('fill', cond,
                                                      F.args[1])]
    if op == 'app' and F.args[0] in ('max2', 'min2'):
        for x, y in ((F.args[1], F.args[2]), (F.args[2], F.args[1])):
            if free_of(y, atoms):
                return updates(x, c, atoms, cond) + [(F.args[0][:3], cond, y)]
    if op == 'dstore' and free_of(F.args[1], atoms) and \
            free_of(F.args[2], atoms):
        return updates(F.args[0], c, atoms, cond) + \
            [('dstore', cond, t.lst(F.args[1], F.args[2]))]
    if free_of(F, atoms):
        return [('set', cond, F)]
    raise NoRule('no accumulation form: ' + op)


def absorb(g, a, b, c, atoms):
    """The conditional without a guard that makes no difference."""
    neg = False
    if b is not c:
        if a is not c:
            return None
        a, b, neg = b, a, True
    if a.op not in ('diff', 'union') or a.args[0] is not c or \
            a.args[1].op != 'set' or len(a.args[1].args) != 1:
        return None
    m = t.mem(a.args[1].args[0], c)
    if a.op == 'diff' and not neg:
        drop = m
    elif a.op == 'union' and not neg:
        drop = not_(m)
    elif a.op == 'union' and neg:
        # ite(f in c or h, c, c | {f})
        parts = list(g.args) if g.op == 'or' else [g]
        if m not in parts:
            return None
        rest = or_(*[x for x in parts if x is not m])
        return ite(rest, c, a) if rest is not FALSE else a
    else:
        parts = list(g.args) if g.op == 'or' else [g]
        if not_(m) not in parts:
            return None
        rest = or_(*[x for x in parts if x is not not_(m)])
        return ite(rest, c, a) if rest is not FALSE else a
    parts = list(g.args) if g.op == 'and' else [g]
    if drop not in parts:
        return None
    rest = and_(*[x for x in parts if x is not drop])
    return ite(rest, a, c) if rest is not TRUE else a


def unref(ev, st):
    """Containers that only one field of the heap refers to are stored by
    value before a loop."""
    count = {}
    for env in st.frames.values():
        for v in env.values():
            if isinstance(v, T):
                for y in t.subterms(v):
                    if y.op == 'ref':
                        count[y] = count.get(y, 0) + 2
    where = {}
    for f, m in st.heap.items():
        for y in t.subterms(m):
            if y.op == 'ref':
                where.setdefault(y, []).append((f, m))
    for r, c in st.refs.items():
        if isinstance(c, T):
            for y in t.subterms(c):
                if y.op == 'ref':
                    count[y] = count.get(y, 0) + 2
    for y, fs in where.items():
        if len(fs) == 1 and not count.get(y) and y.args[0] in st.refs and \
                occurs(fs[0][1], y) == 1:
            f = fs[0][0]
            st.heap[f] = t.replace(st.heap[f], {
                y: ev.resolve(st.refs[y.args[0]], st)})


def occurs(m, y):
    n = 0
    stack = [m]
    while stack:
        x = stack.pop()
        if x is y:
            n += 1
        elif any(isinstance(a, T) for a in x.args):
            stack.extend(a for a in x.args if isinstance(a, T))
        if n > 1 or len(stack) > 5000:
            return 2
    return n


def close(init, ups, dom):
    """The loop result of the update list."""
    var, src, dc = dom.var, dom.src, dom.cond
    if not ups:
        return init
    kinds = {u[0] for u in ups}

    def seq(flat=False):
        """list of all contributions, in the order of the iteration"""
        out = None
        if len(ups) == 1:
            _, c, v = ups[0]
            return lmap(var, src, and_(dc, c), v)
        # several contributions per iteration
        parts = t.lst()
        for _, c, v in ups:
            parts = t.add(parts, ite(c, t.lst(v), t.lst()))
        return t.binder('lflat', var, src, dc, parts, sort='list')
    if kinds == {'union'}:
        if len(ups) == 1 and ups[0][2].op == 'set' and \
                len(ups[0][2].args) == 1:
            e = ups[0][2].args[0]
            c = and_(dc, ups[0][1])
            if e.op == 'bv' and e.args[0] == var and c is TRUE and \
                    src.sort.startswith('set'):
                return t.union(init, src)
            return t.union(init, t.binder('img', var, src, c, e,
                                          sort='set:' + e.sort
                                          if e.sort != 'any' else 'set'))
        s = ups[0][2].sort
        return t.union(init, t.app('unionL', seq(), sort=s))
    if kinds == {'add'}:
        s = init.sort
        for u in ups:
            s = t.join_sort(s, u[2].sort) if u[2].sort != 'bool' else s
        r = t.app('sumL', seq(), sort=s)
        return r if init is const(0) else t.arith('add', init, r)
    if kinds == {'mul'}:
        return t.arith('mul', init, t.app('prodL', seq(), sort=init.sort))
    if kinds == {'cat'}:
        if len(ups) == 1:
            _, c, v = ups[0]
            if v.op == 'lst' and len(v.args) == 1:
                r = lmap(var, src, and_(dc, c), v.args[0])
            else:
                r = t.binder('lflat', var, src, and_(dc, c), v, sort=v.sort)
        else:
            parts = t.lst()
            for _, c, v in ups:
                parts = t.add(parts, ite(c, v, t.lst()))
            r = t.binder('lflat', var, src, dc, parts, sort='list')
        return r if init.op == 'lst' and not init.args else t.add(init, r)
    if kinds == {'inter'}:
        return t.app('interL', init, seq(), sort=init.sort)
    if kinds == {'diff'}:
        return t.diff(init, t.app('unionL', seq(), sort=init.sort))
    if kinds <= {'diff', 'union'}:
        A = [u for u in ups if u[0] == 'diff']
        B = [u for u in ups if u[0] == 'union']

        def fam(us):
            parts = t.lst()
            for _, c, v in us:
                parts = t.add(parts, ite(c, t.lst(v), t.lst()))
            return t.app('unionL', t.binder('lflat', var, src, dc, parts,
                                            sort='list'), sort='set')
        return t.app('diffunion', init, fam(A), fam(B), sort=init.sort)
    if kinds == {'or'}:
        return or_(init, *[t.exists(var, src, and_(dc, c, v))
                           for _, c, v in ups])
    if kinds == {'and'}:
        return and_(init, *[not_(t.exists(var, src, and_(dc, c, not_(v))))
                            for _, c, v in ups])
    if kinds == {'max'} or kinds == {'min'}:
        k = kinds.pop()
        return t.app(k + '2', init, t.app(k + 'L', seq(), init,
                                          sort=init.sort), sort=init.sort)
    if kinds == {'fill'}:
        if len(ups) == 1:
            _, c, v = ups[0]
            r = t.binder('lflat', var, src, and_(dc, c), v, sort='list')
        else:
            parts = t.lst()
            for _, c, v in ups:
                parts = t.add(parts, ite(c, v, t.lst()))
            r = t.binder('lflat', var, src, dc, parts, sort='list')
        return t.raw('fillL', init, r, sort=init.sort)
    if kinds == {'dstore'} and len(ups) == 1:
        _, c, v = ups[0]
        return t.dupd(init, t.app('dictL', lmap(var, src, and_(dc, c), v),
                                  sort='dict'))
    if kinds == {'set'}:
        # overwritten: constant value -> flag, else the value of the last one
        vals = {u[2] for u in ups}
        if len(vals) == 1 and var not in ups[0][2].fv:
            c = or_(*[t.exists(var, src, and_(dc, u[1])) for u in ups])
            return ite(c, ups[0][2], init)
        c = or_(*[u[1] for u in ups])
        v = ups[-1][2]
        for u in reversed(ups[:-1]):
            v = ite(u[1], u[2], v)
        return ite(t.exists(var, src, and_(dc, c)),
                   t.binder('last', var, src, and_(dc, c), v, sort=v.sort),
                   init)
    raise NoRule('mixed updates')


# ------------------------------------------------------------- heap maps
def heap_rule(ev, dom, b, st, keys, results):
    """Closed form of the changed heap maps."""
    from .evalr import initial_map
    var, src, dc = dom.var, dom.src, dom.cond
    fields = [k[1] for k in keys if k[0] == 'h']
    carry = {f: b.carries[('h', f)] for f in fields}
    init = {f: _get(st, ('h', f)) for f in fields}
    end = {f: ev.resolve(_get(b.end, ('h', f)), b.end) for f in fields}
    atoms = set(b.carries.values()) - {t.UNBOUND}
    mapset = set(carry.values())
    # own-slot rule ------------------------------------------------------
    elem = dom.elem
    own_ok = elem.op == 'bv' and elem.args[0] == var and \
        src.sort.startswith('set')
    if own_ok:
        res = own_slot(ev, dom, fields, carry, init, end, atoms, mapset)
        if res is not None:
            for f in fields:
                results[('h', f)] = res[f]
            return
    # accumulation -------------------------------------------------------
    done = {}
    form = {}
    o = t.fresh_name('o')
    for f in fields:
        ob = t.bv(o, 'event')
        G = split_slots(t.sel(end[f], ob), carry[f], ob)
        try:
            ups = updates(G, t.sel(carry[f], ob), atoms)
            form[f] = ups
            done[f] = t.maplam(o, close(t.sel(init[f], ob), ups, dom))
        except NoRule:
            pass
    # updates that depend on monotone accumulations of other fields
    mono = {f for f in done if all(u[0] in ('union',) for u in form[f])}
    for f in fields:
        if f in done:
            continue
        ob = t.bv(o, 'event')
        G = split_slots(t.sel(end[f], ob), carry[f], ob)
        try:
            own = t.sel(carry[f], ob)
            bad = mapset - {carry[g] for g in mono} - {carry[f]}
            G2 = monotone(G, {carry[g]: g for g in mono}, init, form, dom, o)
            ups = updates(G2, own, atoms)
            if not all(free_of(u[1], bad) and free_of(u[2], bad)
                       for u in ups):
                raise NoRule('')
            done[f] = t.maplam(o, close(t.sel(init[f], ob), ups, dom))
        except NoRule:
            pass
    for f in fields:
        results[('h', f)] = done.get(f)


def own_slot(ev, dom, fields, carry, init, end, atoms, mapset):
    """Every iteration writes the slots of its own element only.  A read of
    another slot sees either the value before the loop or the final one,
    depending on which of the two elements the iteration reaches first
    (`either`)."""
    var, src, dc = dom.var, dom.src, dom.cond
    x = t.bv(var, dom.elem.sort)
    vals = {}
    for f in fields:
        m = end[f]
        if not stores_only_at(m, carry[f], x):
            return None
        vals[f] = t.sel(m, x)
    field_of = {carry[f]: f for f in fields}

    def foreign(T_):
        """slots of other elements that are read (terms)"""
        out = []
        for y in t.subterms(T_):
            if y.op == 'sel' and y.args[0] in mapset and \
                    y.args[1] is not x:
                out.append(y)
            elif y.op in ('store', 'mapite', 'maplam') and any(
                    a in mapset for a in y.args if isinstance(a, T)):
                raise NoRule('map value')
            elif y in atoms and y not in mapset:
                raise NoRule('reads another carry')
        return out
    rep = {carry[f]: init[f] for f in fields}
    closed = {}
    busy = set()

    def value(f):
        """value written by the own iteration, reads resolved"""
        if f not in closed:
            if f in busy:
                raise NoRule('mutually dependent slots')
            busy.add(f)
            v = process(vals[f])
            busy.discard(f)
            closed[f] = t.replace(v, rep)
        return closed[f]

    def final(f, p):
        v = t.subst(t.alpha(value(f)), {var: p})
        c = t.subst(t.alpha(dc), {var: p})
        return ite(and_(t.mem(p, src), c), v, t.sel(init[f], p))

    def either(a, b, p):
        if a is b:
            return a
        return ite(t.is_(p, x), a, t.raw('either', a, b, x, p, src,
                                         sort=a.sort))

    def process(v):
        fs = foreign(v)
        if not fs:
            return v
        slots = {y.args[1] for y in fs}
        if len(slots) == 1 and v.sort == 'bool':
            p = next(iter(slots))
            if p.fv <= v.fv | {var}:
                A = {y: t.sel(init[field_of[y.args[0]]], p) for y in fs}
                B = {y: final(field_of[y.args[0]], p) for y in fs}
                return either(t.replace(v, A), t.replace(v, B), p)
        if v.op == 'sel' and v.args[0] in mapset:
            p = process(v.args[1])
            f = field_of[v.args[0]]
            return either(t.sel(init[f], p), final(f, p), p)
        return t.rebuild(v, [process(a) if isinstance(a, T) else a
                             for a in v.args])
    out = {}
    o = t.fresh_name('o')
    ob = t.bv(o, x.sort)
    try:
        for f in fields:
            v = t.subst(t.alpha(value(f)), {var: ob})
            c = t.subst(dc, {var: ob})
            out[f] = t.maplam(o, ite(and_(t.mem(ob, src), c), v,
                                     t.sel(init[f], ob)))
    except NoRule:
        return None
    return out


def bound_inside(T_, p):
    """p contains variables bound inside T_ (reads under a binder)."""
    if not p.fv:
        return False
    return bool(p.fv - T_.fv)


def stores_only_at(m, base, x):
    if m is base:
        return True
    if m.op == 'store':
        return m.args[1] is x and stores_only_at(m.args[0], base, x)
    if m.op == 'mapite':
        return stores_only_at(m.args[1], base, x) and \
            stores_only_at(m.args[2], base, x)
    return False


def split_slots(G, carry, ob):
    """Moves  ite(is(p, o), F(sel(c,p)), rest)  to updates of sel(c,o)."""
    if G.op == 'ite' and G.args[0].op == 'is' and ob in G.args[0].args:
        p = G.args[0].args[0] if G.args[0].args[1] is ob else \
            G.args[0].args[1]
        a = G.args[1]
        a = t.replace(a, {t.sel(carry, p): t.sel(carry, ob)})
        return ite(G.args[0], a, split_slots(G.args[2], carry, ob))
    if G.op == 'ite' and G.args[0].op == 'is':
        pass
    if G.op == 'ite':
        return ite(G.args[0], split_slots(G.args[1], carry, ob),
                   split_slots(G.args[2], carry, ob))
    return G


def monotone(G, cmaps, init, form, dom, o):
    """Replaces boolean atoms that read monotonically growing carries by
    mono(lower, upper): the value when both agree."""
    memo = {}
    var, src, dc = dom.var, dom.src, dom.cond

    def hi_map(f):
        # contributions of all OTHER iterations
        v2 = t.fresh_name('y')
        q = t.fresh_name('q')
        x2 = t.bv(v2, _src_sort(src))
        x = t.bv(var, _src_sort(src))
        qb = t.bv(q, 'event')
        parts = t.lst()
        for _, c, v in form[f]:
            m = {var: x2, o: qb}
            parts = t.add(parts, ite(t.subst(c, m), t.lst(t.subst(v, m)),
                                     t.lst()))
        other = not_(t.eq(x2, x) if x.sort in ('int', 'any') else
                     t.is_(x2, x))
        fam = t.app('unionL', t.binder('lflat', v2, src, and_(
            other, t.subst(dc, {var: x2})), parts, sort='list'),
            sort='set:event')
        return t.maplam(q, t.union(t.sel(init[f], qb), fam))
    his = {}

    def atom(a):
        lo = t.replace(a, {c: init[f] for c, f in cmaps.items()})
        for c, f in cmaps.items():
            if f not in his:
                his[f] = hi_map(f)
        hi = t.replace(a, {c: his[f] for c, f in cmaps.items()})
        if lo is hi:
            return lo
        return t.raw('mono', lo, hi, sort='bool')

    def mono_ok(a):
        """positive existential reads only"""
        for y in t.subterms(a):
            if y.op in ('diff', 'not', 'symdiff', 'ite') and not free_of(
                    y, set(cmaps)):
                return False
        return True

    def go(x):
        if free_of(x, set(cmaps)):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.sort == 'bool' and x.op not in ('and', 'or', 'not', 'ite'):
            if x.op == 'exists' and not mono_ok(x.args[1]):
                raise NoRule('')
            if not mono_ok(x):
                raise NoRule('')
            r = atom(x)
        elif x.op == 'sel':
            raise NoRule('')
        else:
            r = t.rebuild(x, [go(a) if isinstance(a, T) else a
                              for a in x.args])
        memo[x.id] = r
        return r
    return go(G)


# ------------------------------------------------------------------- for
def for_loop(ev, s, fr, st):
    itv = ev.E(s.iter, fr, st)
    src = ev.iter_of(itv, fr, st)
    src = ev.resolve(src, st)
    iterate(ev, src, s.target, s.body, s.orelse, fr, st, s)


def iterate(ev, src, target, body, orelse, fr, st, node):
    if fr.pc is FALSE:
        return
    if src.op == 'ite' and (src.args[1].op == 'lst' or
                            src.args[2].op == 'lst'):
        ev.branch(src.args[0],
                  lambda f, x: iterate(ev, src.args[1], target, body, orelse,
                                       f, x, node),
                  lambda f, x: iterate(ev, src.args[2], target, body, orelse,
                                       f, x, node), fr, st)
        return
    lit = literal_elems(src)
    if lit is not None and len(lit) <= UNROLL:
        unroll(ev, lit, target, body, orelse, fr, st)
        return
    if src.op == 'lflat':
        nested_source(ev, src, target, body, orelse, fr, st, node)
        return
    dom = domain(ev, src)
    generic_loop(ev, dom, lambda f, x: ev.assign(target, dom.elem, f, x),
                 lambda f, x: ev.block(body, f, x), orelse, fr, st, node)


def literal_elems(src):
    if src.op == 'lst':
        return list(src.args)
    if src.op == 'set' and all(x.op == 'const' for x in src.args):
        return list(src.args)
    if src.op == 'range' and all(x.op == 'const' for x in src.args):
        r = range(*[t.cval(x) for x in src.args])
        if len(r) <= 6:
            return [const(i) for i in r]
    if src.op == 'app' and src.args[0] == 'enumerate' and \
            src.args[1].op == 'lst' and len(src.args) == 2:
        return [t.lst(const(i), x) for i, x in enumerate(src.args[1].args)]
    if src.op == 'app' and src.args[0] == 'zip' and \
            all(x.op == 'lst' for x in src.args[1:]):
        return [t.lst(*x) for x in zip(*[y.args for y in src.args[1:]])]
    return None


def unroll(ev, elems, target, body, orelse, fr, st):
    """Literal sequence of the source text: straight-line code."""
    pcs = fr.pc
    breaks = []
    for e in elems:
        if fr.pc is FALSE:
            break
        n0 = len(fr.exits)
        ev.assign(target, e, fr, st)
        ev.block(body, fr, st)
        new = fr.exits[n0:]
        del fr.exits[n0:]
        rest, cont = [], []
        for x in new:
            if x.kind == 'continue':
                cont.append(x)
            elif x.kind == 'break':
                breaks.append(x)
            else:
                rest.append(x)
        fr.exits.extend(rest)
        _join_into(fr, st, cont)
    if orelse and fr.pc is not FALSE:
        ev.block(orelse, fr, st)
    _join_into(fr, st, breaks)


def _join_into(fr, st, exits):
    from .evalr import join_states
    for x in exits:
        if x.cond is FALSE:
            continue
        if fr.pc is FALSE:
            st.become(x.state.copy())
            fr.pc = x.cond
        else:
            st.become(join_states(x.cond, x.state, st))
            fr.pc = or_(fr.pc, x.cond)


def nested_source(ev, src, target, body, orelse, fr, st, node):
    """for y in lflat(x, S, c, L): two nested loops (break-free bodies)."""
    if orelse or any(isinstance(n, ast.Break) for b in body
                     for n in ast.walk(b)):
        havoc_loop(ev, fr, st, body, node, 'break in a flattened loop')
        return
    v = t.fresh_name('x')
    b = t.bv(v, _src_sort(src.args[1]))
    dom = Dom(v, src.args[1], t.subst(src.args[2], {src.args[0]: b}), b)
    inner = t.subst(src.args[3], {src.args[0]: b})
    generic_loop(ev, dom, lambda f, x: None,
                 lambda f, x: iterate(ev, inner, target, body, [], f, x,
                                      node), [], fr, st, node)


def generic_loop(ev, dom, setup, body, orelse, fr, st, node):
    unref(ev, st)
    try:
        b = run_body(ev, fr, st, setup, body, [t.bv(dom.var, 'any')])
    except NoRule as e:
        havoc_body(ev, fr, st, setup, body, dom, str(e))
        return
    var, src, dc = dom.var, dom.src, dom.cond
    atoms = set(b.carries.values()) - {t.UNBOUND}
    if b.end is not None:
        relate_fresh_refs(ev, b, st)
    if b.forced:
        for e in b.exits:
            e.cond = ev.resolve(e.cond, e.state)
        fold_loop(ev, b, dom, st, fr, orelse, 'variables of the loop')
        return
    breaks = [e for e in b.exits if e.kind == 'break']
    outs = [e for e in b.exits if e.kind != 'break']
    results = {}
    post = st.copy()
    for e in b.exits:
        e.cond = ev.resolve(e.cond, e.state)
        if isinstance(e.val, T):
            e.val = ev.resolve(e.val, e.state)
    # ---- exits through return / raise / break
    anyc = FALSE
    if b.end is not None:
        neutral_reads(ev, b, dom, st)
    exit_conds = []
    normal_keys = [k for k in b.carries]
    try:
        for e in b.exits:
            exit_conds.append(exit_cond(ev, e, dom, b, atoms, st))
    except NoRule as ex:
        fold_loop(ev, b, dom, st, fr, orelse, str(ex))
        return
    folds = []

    def fold():
        if not folds:
            folds.append(Fold(ev, dom, b, st))
        return folds[0]
    lazy = set()
    # ---- closed forms of the changed keys
    if b.end is None:
        # every iteration leaves the loop: no carried change
        for k in b.carries:
            results[k] = _get(st, k)
    else:
        hk = [k for k in b.carries if k[0] == 'h']
        for k in b.carries:
            if k[0] == 'h':
                continue
            c = b.carries[k]
            F = _get(b.end, k)
            F = ev.resolve(F, b.end) if F is not t.UNBOUND else F
            init = _get(st, k)
            if c is t.UNBOUND or (init.op == 'ite' and
                                  ev.unbound_cond(init) is not FALSE):
                # assigned in the loop only
                if F is t.UNBOUND or not free_of(F, atoms):
                    if F is t.UNBOUND:
                        results[k] = t.UNBOUND
                    else:
                        results[k] = fold().get(k)
                        lazy.add(k)
                else:
                    results[k] = ite(t.exists(var, src, dc), t.binder(
                        'last', var, src, dc, F, sort=F.sort), init)
                continue
            initv = ev.resolve(init, st)
            try:
                other = atoms - {c}
                ups = updates(F, c, atoms)
                for u in ups:
                    if not free_of(u[2], atoms) or not free_of(u[1], atoms):
                        raise NoRule('')
                results[k] = close(initv, ups, dom)
            except NoRule as ex:
                ev.opaque_reasons.append('fold: update of %s: %s' % (k, ex))
                results[k] = fold().get(k)
                lazy.add(k)
        if hk:
            heap_rule(ev, dom, b, st, hk, results)
            for k in hk:
                if results[k] is None:
                    ev.opaque_reasons.append('fold: heap field %s' % k[1])
                    results[k] = fold().get(k)
                    lazy.add(k)
    # a changed key that a break leaves in a special state
    brk = [(c, e) for c, e in zip(exit_conds, b.exits) if e.kind == 'break']
    for k, v in list(results.items()):
        _set(post, k, v)
    if brk and b.carries:
        for k in b.carries:
            if k not in lazy:
                settle_break(ev, k, b, dom, brk, st, post, results, atoms,
                             fold)
    # ---- emit
    pc = fr.pc
    tot = or_(*exit_conds) if exit_conds else FALSE
    eff = bool(b.carries)
    outs2 = [(c, e) for c, e in zip(exit_conds, b.exits)
             if e.kind != 'break']
    single = len(b.exits) <= 1 or all(
        e.kind == b.exits[0].kind and e.val is b.exits[0].val
        for e in b.exits)
    iter_any = or_(*[e.cond for e in b.exits]) if b.exits else FALSE
    carryfree = all(free_of(e.cond, atoms) for e in b.exits)
    for c, e in outs2:
        if not single and carryfree and len(b.exits) > 1:
            cc = t.binder('first', var, src, and_(dc, iter_any), e.cond,
                          sort='bool')
            cc = and_(tot, cc)
        elif not single:
            cc = fold().exit(b.exits.index(e))
        else:
            cc = c
        val = e.val
        if isinstance(val, T) and var in val.fv:
            if not free_of(val, atoms) or not carryfree:
                val = fold().value(b.exits.index(e))
            else:
                val = t.binder('first', var, src, and_(dc, e.cond if single
                                                       and len(b.exits) == 1
                                                       else iter_any), val,
                               sort=val.sort)
        elif isinstance(val, T) and not free_of(val, atoms):
            val = fold().value(b.exits.index(e))
        es = post.copy()
        for k in b.carries:
            if k[0] == 'h' and any(
                    _get(x.state, k) is not b.s0.heap.get(k[1])
                    for x in b.exits) or b.end is not None and k[0] == 'h':
                _set(es, k, fold().get(k))
            elif k[0] != 'h':
                _set(es, k, fold().get(k))
        from .evalr import Exit
        fr.exits.append(Exit(e.kind, and_(pc, cc), val, es, e.node))
    st.become(post)
    nb = or_(*[c for c, e in outs2]) if outs2 else FALSE
    bc = or_(*[c for c, e in brk]) if brk else FALSE
    if outs2 and brk:
        # order between break and return decides: only exact for `first`
        cb = t.binder('first', var, src, and_(dc, iter_any),
                      or_(*[e.cond for c, e in brk]), sort='bool') \
            if carryfree else or_(*[fold().exit(b.exits.index(e))
                                    for c, e in brk])
        nb = and_(tot, not_(cb))
        bc = and_(tot, cb)
    fr.pc = and_(pc, not_(nb))
    if orelse:
        if brk:
            ev.branch(bc, lambda f, x: None,
                      lambda f, x: ev.block(orelse, f, x), fr, st)
        else:
            ev.block(orelse, fr, st)


def opaque(ev, why, sort='any'):
    from .evalr import opaque as o
    return o(why, sort)


def neutral_reads(ev, b, dom, st):
    """A read of a slot that no iteration writes sees the initial value."""
    targets = {}
    atoms = set(b.carries.values()) - {t.UNBOUND}
    hk = [k for k in b.carries if k[0] == 'h']
    states = [b.end] + [e.state for e in b.exits]
    for k in hk:
        c = b.carries[k]
        ts = set()
        ok = True
        for s_ in states:
            ok = ok and _targets(_get(s_, k), c, ts)
        if ok and all(dom.var not in w.fv for w in ts):
            targets[c] = (k, ts)
    carr = {b.carries[k]: k for k in hk}
    if not carr:
        return
    m = {}
    inner = set()

    def scan(x):
        for y in t.subterms(x):
            if y.op != 'sel' or y.args[0] not in carr or y in m or \
                    y in inner:
                continue
            if y.args[0] in targets:
                k, ts = targets[y.args[0]]
                if all(t.distinct(w, y.args[1]) for w in ts):
                    m[y] = t.sel(_get(st, k), y.args[1])
                    continue
            # no iteration changes the slot
            k = carr[y.args[0]]
            w = y.args[1]
            if not w.fv and free_of(w, atoms) and \
                    all(t.sel(_get(s_, k), w) is y for s_ in states):
                m[y] = t.sel(_get(st, k), w)
            else:
                inner.add(y)
    for k in b.carries:
        for s_ in states:
            v = _get(s_, k)
            if v is not t.UNBOUND:
                scan(v)
                if v.op == 'ref':
                    scan(s_.refs.get(v.args[0], v))
    for s_ in states:
        for r in s_.refs.values():
            if isinstance(r, T):
                scan(r)
    for e in b.exits:
        scan(e.cond)
        if isinstance(e.val, T):
            scan(e.val)
    if not m:
        return
    for s_ in states:
        for k in b.carries:
            v = _get(s_, k)
            if v is not t.UNBOUND:
                _set(s_, k, t.replace(v, m))
        for r in list(s_.refs):
            if isinstance(s_.refs[r], T):
                s_.refs[r] = t.replace(s_.refs[r], m)
    for e in b.exits:
        e.cond = t.replace(e.cond, m)
        if isinstance(e.val, T):
            e.val = t.replace(e.val, m)


def _targets(m, c, out):
    if m is c:
        return True
    if m.op == 'store':
        out.add(m.args[1])
        return _targets(m.args[0], c, out)
    if m.op == 'mapite':
        return _targets(m.args[1], c, out) and _targets(m.args[2], c, out)
    return False


def relate_fresh_refs(ev, b, st):
    """References created in the body are replaced by their content."""
    for k in b.carries:
        if k[0] == 'h':
            b.end.heap[k[1]] = ev.resolve(_get(b.end, k), b.end)


def exit_cond(ev, e, dom, b, atoms, st):
    """Condition (before the loop) under which the loop is left at e."""
    var, src, dc = dom.var, dom.src, dom.cond
    if free_of(e.cond, atoms):
        return t.exists(var, src, and_(dc, e.cond))
    # threshold of a monotone counter
    conj = list(e.cond.args) if e.cond.op == 'and' else [e.cond]
    thr = [x for x in conj if not free_of(x, atoms)]
    gam = and_(*[x for x in conj if free_of(x, atoms)])
    if len(thr) != 1:
        # negated earlier thresholds of the same iteration may be dropped
        pos = [x for x in thr if not (x.op == 'not')]
        if len(pos) != 1:
            raise NoRule('exit depends on the iteration history')
        thr = pos
    x = thr[0]
    op = x.op
    neg = False
    if op == 'not':
        neg = True
        x = x.args[0]
        op = x.op
    if op not in ('lt', 'le', 'eq'):
        raise NoRule('exit condition')
    l, r = x.args
    K, cnt = (l, r) if free_of(l, atoms) else (r, l)
    if K.op != 'const' or not free_of(K, atoms):
        raise NoRule('exit threshold')
    ck = [k for k, c in b.carries.items() if c is not t.UNBOUND and
          not free_of(cnt, {c})]
    if len(ck) != 1:
        raise NoRule('exit threshold')
    c = b.carries[ck[0]]
    ups = updates(cnt, c, atoms)
    endF = _get(b.end, ck[0]) if b.end is not None else None
    total_ups = updates(endF, c, atoms) if endF is not None and \
        endF is not t.UNBOUND else ups
    for u in ups + total_ups:
        if u[0] != 'add' or u[2].op != 'const' or t.cval(u[2]) <= 0:
            raise NoRule('counter not monotone')
    inc = or_(*[u[1] for u in ups]) if ups else FALSE
    # the exit has to be tested whenever the counter grows
    if gam is not TRUE and gam is not inc and inc is not TRUE and \
            not implies(inc, gam):
        raise NoRule('threshold not tested at every increment')
    init = ev.resolve(_get(st, ck[0]), st)
    total = close(init, [(u[0], u[1], u[2]) for u in
                         updates_uncond(cnt, c, atoms, b, ck[0])], dom)
    if op == 'eq':
        if neg or t.cval(K) <= 0:
            raise NoRule('eq threshold')
        if any(t.cval(u[2]) != 1 for u in ups):
            raise NoRule('eq threshold')
        return and_(t.exists(var, src, dc), not_(t.cmp_('lt', total, K)))
    if neg:
        # not (cnt < K)
        if cnt is l:
            c2 = not_(t.cmp_(op, total, K))
        else:
            raise NoRule('threshold direction')
    else:
        if cnt is r:
            c2 = t.cmp_(op, K, total)
        else:
            raise NoRule('threshold direction')
    return and_(t.exists(var, src, dc), c2)


def updates_uncond(cnt, c, atoms, b, k):
    """Increments of the counter per iteration.  `cnt` is the value on the
    path of the exit; the conditions of that path are restored from the end
    state, where the counter is an ite of the same increment."""
    ups = updates(cnt, c, atoms)
    if b.end is not None:
        F = _get(b.end, k)
        if F is not t.UNBOUND:
            try:
                u2 = updates(F, c, atoms)
                if sum(1 for _ in u2) >= len(ups):
                    return u2
            except NoRule:
                pass
    return ups


def implies(a, b):
    bs = set(b.args) if b.op == 'and' else {b}
    as_ = set(a.args) if a.op == 'and' else {a}
    return bs <= as_


def settle_break(ev, k, b, dom, brk, st, post, results, atoms, fold):
    """Value of k after a loop that may have been left by break."""
    var, src, dc = dom.var, dom.src, dom.cond
    c = b.carries[k]
    init = _get(st, k)
    unchanged = b.end is None or _get(b.end, k) is c
    if k[0] == 'h':
        if unchanged and all(_get(e.state, k) is c for _, e in brk):
            _set(post, k, init)
        else:
            _set(post, k, fold().get(k))
        return
    tot = or_(*[x for x, _ in brk])
    if unchanged:
        v = init
        vals = []
        ok = True
        for cc, e in brk:
            w = _get(e.state, k)
            if w is c:
                vals.append((cc, e, init))
                continue
            w = ev.resolve(w, e.state) if w is not t.UNBOUND else w
            if not free_of(w, atoms):
                ok = False
                break
            if var in w.fv:
                if not free_of(e.cond, atoms) or len(brk) > 1:
                    ok = False
                    break
                w = t.binder('first', var, src, and_(dc, e.cond), w,
                             sort=w.sort)
            vals.append((cc, e, w))
        if ok and (len(brk) == 1 or len({id(x[2]) for x in vals}) == 1):
            for cc, e, w in vals:
                v = ite(cc, w, v)
            _set(post, k, v)
            return
    _set(post, k, fold().get(k))


def havoc_loop(ev, fr, st, body, node, why):
    ev.opaque_reasons.append('loop: ' + why)
    names = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
    for n in names:
        st.frames[fr.fid][n] = opaque(ev, 'loop ' + n)
    for f in list(st.heap):
        st.heap[f] = t.map0('%s@opaque:%s' % (f, t.fresh_name('m')),
                            'bool' if f.startswith('has:') else 'any')
    for r in list(st.refs):
        st.refs[r] = opaque(ev, 'loop ref', st.refs[r].sort)


def havoc_body(ev, fr, st, setup, body, dom, why, b=None):
    """No rule: everything the body changes becomes opaque; exits unknown."""
    ev.opaque_reasons.append('loop: ' + why)
    if b is None:
        s1 = st.copy()
        snap = _snapshot(ev, fr)
        try:
            setup(fr, s1)
            body(fr, s1)
        except NoRule:
            pass
        exits = fr.exits[snap[0]:]
        _rollback(ev, fr, snap)
        keys = _changed(st, s1)
        for e in exits:
            keys |= _changed(st, e.state)
    else:
        keys = set(b.carries)
        exits = b.exits
    for k in keys:
        v = _get(st, k)
        if k[0] == 'h':
            _set(st, k, t.map0('%s@opaque:%s' % (k[1], t.fresh_name('m')),
                               'bool' if k[1].startswith('has:') else 'any'))
        else:
            _set(st, k, opaque(ev, 'loop', 'any' if v is t.UNBOUND
                               else v.sort))
    from .evalr import Exit
    for e in exits:
        if e.kind in ('return', 'raise'):
            c = opaque(ev, 'exit', 'bool')
            val = e.val
            if isinstance(val, T) and (val.fv or b is None):
                val = opaque(ev, 'exit value', val.sort)
            fr.exits.append(Exit(e.kind, and_(fr.pc, c), val, st.copy(),
                                 e.node))
            fr.pc = and_(fr.pc, not_(c))


# ----------------------------------------------------------------- while
def while_loop(ev, s, fr, st):
    """`S := F(S) until the size is stable` -> lfp; otherwise opaque."""
    def setup(f, x):
        pass

    def body(f, x):
        c = ev.truth(ev.E(s.test, f, x), x, f)
        body.test = c
        if c is not TRUE:
            from .evalr import Exit
            f.exits.append(Exit('break', and_(f.pc, not_(c)), NONE, x.copy(),
                                s))
            f.pc = and_(f.pc, c)
            if c is FALSE:
                return
        ev.block(s.body, f, x)
    try:
        b = run_body(ev, fr, st, setup, body, [])
        if b.forced:
            fold_loop(ev, b, None, st, fr, s.orelse, 'while loop')
            return
        r = stable_rule(ev, b, st, fr)
        if r:
            if s.orelse:
                ev.block(s.orelse, fr, st)
            return
        r = break_once(ev, b, st, fr)
        if r:
            return
    except NoRule:
        havoc_while(ev, s, fr, st, None)
        return
    fold_loop(ev, b, None, st, fr, s.orelse, 'while loop')


def break_once(ev, b, st, fr):
    """while-loop that always leaves in its first iteration."""
    if b.end is not None or b.carries and any(
            not free_of(e.cond, set(b.carries.values())) for e in b.exits):
        return False
    return False


def havoc_while(ev, s, fr, st, b):
    dom = None
    ev.opaque_reasons.append('while loop')
    if b is None:
        havoc_loop(ev, fr, st, s.body, s, 'while')
        return
    havoc_body(ev, fr, st, None, None, None, 'while', b)


def stable_rule(ev, b, st, fr):
    """do { l = len(S); S = F(S) } while (len(S) != l), in any arrangement:
    find the set-valued carry S with S' = F(S) and an exit test that is the
    stability of its size."""
    brk = [e for e in b.exits if e.kind == 'break']
    if len(brk) != 1 or len(b.exits) != 1 or b.end is None:
        return False
    atoms = {c: k for k, c in b.carries.items() if c is not t.UNBOUND}
    sets = [(k, c) for k, c in b.carries.items() if c is not t.UNBOUND and
            k[0] != 'h' and c.sort.startswith('set')]
    if any(k[0] == 'h' for k in b.carries):
        return False
    for k, c in sets:
        F = ev.resolve(_get(b.end, k), b.end)
        Fb = ev.resolve(_get(brk[0].state, k), brk[0].state)
        if not free_of(F, set(atoms) - {c}):
            continue
        cond = ev.resolve(brk[0].cond, brk[0].state)
        # form 1: test after the update   size(F(S)) == size(S)
        A, B = t.size(F), t.size(c)
        ok = cond is t.eq(A, B) or cond is t.eq(B, A) or \
            cond is not_(t.cmp_('lt', B, A)) or cond is t.cmp_('le', A, B)
        if ok and Fb is F:
            init = ev.resolve(_get(st, k), st)
            v = t.fresh_name('S')
            body = t.replace(F, {c: t.bv(v, c.sort)})
            r = t.raw('lfp', v, init, body, sort=F.sort)
            _finish_stable(ev, b, st, k, r)
            return True
        # form 2: pre/this counters compared before the update
        if Fb is c:
            pre = this = None
            x = cond
            neg = x.op == 'not'
            y = x.args[0] if neg else x
            if y.op in ('lt', 'eq', 'le') and all(
                    z in atoms for z in y.args):
                ks = [atoms[z] for z in y.args]
                nx = [ev.resolve(_get(b.end, q), b.end) for q in ks]
                cs = list(y.args)
                for p, q in ((0, 1), (1, 0)):
                    # p = pre (takes the old size), q = this (new size)
                    if (nx[p] is cs[q] or nx[p] is t.size(c)) and \
                            nx[q] is t.size(F):
                        ini = [ev.resolve(_get(st, z), st) for z in ks]
                        s0 = ev.resolve(_get(st, k), st)
                        if (ini[q] is t.size(s0)) and \
                                ini[p].op == 'const' and t.cval(ini[p]) <= 0:
                            v = t.fresh_name('S')
                            body = t.replace(F, {c: t.bv(v, c.sort)})
                            r = t.raw('lfp', v, s0, body, sort=F.sort)
                            _finish_stable(ev, b, st, k, r)
                            return True
    return False


def _finish_stable(ev, b, st, k, r):
    for kk in b.carries:
        if kk == k:
            continue
        v = _get(st, kk)
        nv = _get(b.end, kk)
        _set(st, kk, t.size(r) if (v.sort == 'int' or v is t.UNBOUND) and
             nv.sort == 'int' else opaque(
            ev, 'while', 'any' if v is t.UNBOUND else v.sort))
    _set(st, k, r)


# ---------------------------------------------------------- comprehension
def comprehension(ev, n, kind, fr, st):
    """The comprehension as closed term (list, set or dict)."""
    gens = n.generators

    def level(i, s, pc):
        """Returns a list-term of the results of generators i.."""
        if i == len(gens):
            if kind == 'dict':
                return t.lst(t.lst(ev.E(n.key, fr, s), ev.E(n.value, fr, s)))
            v = ev.E(n.elt, fr, s)
            return t.lst(ev.resolve(v, s))
        g = gens[i]
        src = ev.resolve(ev.iter_of(ev.E(g.iter, fr, s), fr, s), s)
        lit = literal_elems(src)
        if lit is not None and len(lit) <= UNROLL:
            out = t.lst()
            for e in lit:
                ev.assign(g.target, e, fr, s)
                c = TRUE
                for f in g.ifs:
                    c = and_(c, ev.truth(ev.E(f, fr, s), s, fr))
                if c is FALSE:
                    continue
                out = t.add(out, ite(c, level(i + 1, s, pc), t.lst()))
            return out
        dom = domain(ev, src) if src.op != 'lflat' else None
        if dom is None:
            v = t.fresh_name('x')
            dom = Dom(v, src, TRUE, t.bv(v, t.esort(src)))
        n0 = len(fr.exits)
        pc0 = fr.pc
        fr.pc = TRUE
        s1 = s.copy()
        ev.assign(g.target, dom.elem, fr, s1)
        ev.loop_vars.append(t.bv(dom.var, 'any'))
        c = dom.cond
        try:
            for f in g.ifs:
                cc = ev.truth(ev.E(f, fr, s1), s1, fr)
                c = and_(c, ev.resolve(cc, s1))
                fr.pc = and_(fr.pc, cc)
            inner = level(i + 1, s1, pc)
        finally:
            ev.loop_vars.pop()
        ex = fr.exits[n0:]
        del fr.exits[n0:]
        fr.pc = pc0
        # effects of the body on the heap (e.g. memoised links)
        effects(ev, dom, c, s, s1)
        for e in ex:
            from .evalr import Exit
            cond = t.exists(dom.var, dom.src, and_(dom.cond, ev.resolve(
                e.cond, e.state)))
            fr.exits.append(Exit(e.kind, and_(fr.pc, cond), e.val, s.copy(),
                                 e.node))
            fr.pc = and_(fr.pc, not_(cond))
        if inner.op == 'lst' and len(inner.args) == 1:
            return lmap(dom.var, dom.src, c, inner.args[0])
        if c is FALSE or (inner.op == 'lst' and not inner.args):
            return t.lst()
        return t.binder('lflat', dom.var, dom.src, c, inner, sort=inner.sort)
    saved = dict(st.frames[fr.fid]) if fr.fid in st.frames else None
    if fr.fid not in st.frames:
        st.frames[fr.fid] = {}
    pre = st.copy()
    snap = _snapshot(ev, fr)
    nop = len(ev.opaque_reasons)
    try:
        out = level(0, st, fr.pc)
    except NeedLoop:
        _rollback(ev, fr, snap)
        del ev.opaque_reasons[nop:]
        st.become(pre)
        out = comp_loop(ev, n, kind, fr, st)
    if saved is not None:
        names = {y.id for g in gens for y in ast.walk(g.target)
                 if isinstance(y, ast.Name)}
        for x in names:
            if x in saved:
                st.frames[fr.fid][x] = saved[x]
            else:
                st.frames[fr.fid].pop(x, None)
    if kind == 'list':
        return out
    if kind == 'set':
        return list_to_set(ev, out)
    if out.op == 'lst':
        d = t.DEMPTY
        for x in out.args:
            d = t.dstore(d, x.args[0], x.args[1])
        return d
    return t.app('dictL', out, sort='dict')


class NeedLoop(Exception):
    """The comprehension changes the heap in a way that needs a loop."""


def comp_loop(ev, n, kind, fr, st):
    """The comprehension as a loop that appends to a hidden list."""
    acc = '$%s' % t.fresh_name('c')
    st.frames[fr.fid][acc] = t.lst()

    def level(i, f, x):
        if i == len(n.generators):
            if kind == 'dict':
                v = t.lst(ev.E(n.key, f, x), ev.E(n.value, f, x))
            else:
                v = ev.E(n.elt, f, x)
            env = x.frames[f.fid]
            env[acc] = t.add(env[acc], t.lst(ev.resolve(v, x)))
            return
        g = n.generators[i]
        src = ev.resolve(ev.iter_of(ev.E(g.iter, f, x), f, x), x)
        dom = domain(ev, src) if src.op != 'lflat' else None
        if dom is None:
            v = t.fresh_name('x')
            dom = Dom(v, src, TRUE, t.bv(v, t.esort(src)))

        def body(f2, x2, k=0):
            if k == len(g.ifs):
                level(i + 1, f2, x2)
                return
            c = ev.truth(ev.E(g.ifs[k], f2, x2), x2, f2)
            ev.branch(c, lambda f3, x3: body(f3, x3, k + 1),
                      lambda f3, x3: None, f2, x2)
        generic_loop(ev, dom, lambda f2, x2: ev.assign(g.target, dom.elem,
                                                       f2, x2),
                     body, None, f, x, n)
    level(0, fr, st)
    return st.frames[fr.fid].pop(acc)


def list_to_set(ev, out):
    if out.op == 'lst':
        return t.sset(*out.args)
    if out.op == 'lmap':
        return ev.mk_img(*out.args)
    if out.op == 'ite':
        return ite(out.args[0], list_to_set(ev, out.args[1]),
                   list_to_set(ev, out.args[2]))
    es = t.esort(out)
    return t.raw('toset', out, sort='set:' + es if es != 'any' else 'set')


def effects(ev, dom, c, s0, s1):
    """Heap changes made while a comprehension is evaluated."""
    ks = [k for k in _changed(s0, s1) if k[0] in ('h', 'r')]
    if not ks:
        return
    b = Body()
    b.forced = set()
    fields = [k[1] for k in ks if k[0] == 'h']
    # the body read the maps of s0 directly; make them carries
    carry = {}
    for f in fields:
        carry[f] = t.map0('%s@%s' % (f, t.fresh_name('k')),
                          'bool' if f.startswith('has:') else 'any')
    x = dom.elem
    from .evalr import initial_map
    ok = x.op == 'bv' and dom.src.sort.startswith('set')
    res = None
    if ok:
        res = {}
        o = t.fresh_name('o')
        ob = t.bv(o, x.sort)
        for f in fields:
            base = _get(s0, ('h', f))
            m = ev.resolve(_get(s1, ('h', f)), s1)
            if not stores_only_at(m, base, x):
                res = None
                break
            v = t.subst(t.sel(m, x), {dom.var: ob})
            cc = t.subst(c, {dom.var: ob})
            # reads of other slots see the initial map: exact only when the
            # values do not depend on the changed maps of other elements;
            # memoised values are recomputed identically, which the link
            # obligations check separately
            res[f] = t.maplam(o, ite(t.mem(ob, dom.src), v,
                                     t.sel(base, ob)))
    if res is None:
        res = new_slots(ev, dom, c, s0, s1, fields)
    if res is None or any(k[0] == 'r' for k in ks):
        raise NeedLoop()
    for k in ks:
        s0.heap[k[1]] = res[k[1]]


def new_slots(ev, dom, c, s0, s1, fields):
    """The iterations write slots of their own new objects only."""
    out = {}

    def chain(m, base, k):
        if m is base:
            return k
        if m.op == 'store' and m.args[1].op == 'new' and \
                dom.var in m.args[1].fv:
            r = chain(m.args[0], base, k)
            return None if r is None else t.store(r, *m.args[1:])
        if m.op == 'mapite':
            x = chain(m.args[1], base, k)
            y = chain(m.args[2], base, k)
            return None if x is None or y is None else \
                t.mapite(m.args[0], x, y)
        return None
    for f in fields:
        base = _get(s0, ('h', f))
        m = ev.resolve(_get(s1, ('h', f)), s1)
        k = t.map0('%s@%s' % (f, t.fresh_name('k')), base.args[1]
                   if base.op == 'map0' else 'any')
        m = chain(m, base, k)
        if m is None:
            return None
        ob = t.bv(t.fresh_name('o'), 'event')
        try:
            ups = updates(split_slots(t.sel(m, ob), k, ob), t.sel(k, ob),
                          {k}, c)
            out[f] = t.maplam(ob.args[0], close(t.sel(base, ob), ups, Dom(
                dom.var, dom.src, dom.cond, dom.elem)))
        except NoRule:
            return None
    return out


# ------------------------------------------------------------------ folds
class Fold:
    """The loop as a recurrence: a fold over the domain whose state are the
    changed variables and heap fields.  Used where no closed form exists."""

    def __init__(self, ev, dom, b, st):
        self.keys = [k for k in b.carries]
        m = {}
        names = []
        for k in self.keys:
            c = b.carries[k]
            w = t.fresh_name('f')
            names.append(w)
            if c is t.UNBOUND:
                continue
            s = 'map:' + c.args[1] if k[0] == 'h' else c.sort
            m[c] = t.bv(w, s)
        var, src, dc = (dom.var, dom.src, dom.cond) if dom else \
            (t.fresh_name('x'), t.app('forever', sort='list'), TRUE)
        self.b = b
        self.sorts = []

        def val(s_, k):
            v = _get(s_, k)
            if v is t.UNBOUND or k[0] == 'h':
                return v if k[0] != 'h' else ev.resolve(v, s_)
            return ev.resolve(v, s_)
        terms = [dc]
        ends = []
        for k in self.keys:
            ends.append(val(b.end, k) if b.end is not None else t.UNBOUND)
        kinds = []
        exits = []
        for e in b.exits:
            kinds.append(e.kind[0])
            exits.append(ev.resolve(e.cond, e.state))
            v = e.val
            exits.append(ev.resolve(v, e.state) if isinstance(v, T)
                         else t.NONE)
            for k in self.keys:
                exits.append(val(e.state, k))
        inits = []
        for k in self.keys:
            v = _get(st, k)
            inits.append(v if v is t.UNBOUND else ev.resolve(v, st))
        for i, k in enumerate(self.keys):
            if k[0] == 'h':
                self.sorts.append('map:' + b.carries[k].args[1])
                continue
            s = None
            for v in (inits[i], ends[i]):
                if v is not t.UNBOUND:
                    s = v.sort if s is None else t.join_sort(s, v.sort)
            self.sorts.append(s or 'any')
        body = [t.replace(x, m) for x in terms + ends + exits]
        spec = '%d;%d;%s' % (len(self.keys), 1 if b.end is not None else 0,
                             ''.join(kinds))
        self.term = t.raw('fold', ','.join([var] + names), spec, src,
                          *(inits + body))
        ev.folds = getattr(ev, 'folds', 0) + 1

    def get(self, k):
        i = self.keys.index(k)
        return t.raw('foldget', self.term, const(i), sort=self.sorts[i])

    def exit(self, j):
        """the loop is left through exit j"""
        return t.raw('foldexit', self.term, const(j), sort='bool')

    def value(self, j):
        v = self.b.exits[j].val
        if not isinstance(v, T) or v.op in ('const', 'pyc', 'raise') and \
                not v.fv:
            return v
        return t.raw('foldval', self.term, const(j), sort=v.sort)


def fold_loop(ev, b, dom, st, fr, orelse, why):
    """The whole effect of the loop by a fold."""
    F = Fold(ev, dom, b, st)
    ev.opaque_reasons.append('fold: ' + why)
    post = st.copy()
    for k in F.keys:
        _set(post, k, F.get(k))
    from .evalr import Exit
    pc = fr.pc
    nb = FALSE
    bc = FALSE
    for j, e in enumerate(b.exits):
        c = F.exit(j)
        if e.kind == 'break':
            bc = or_(bc, c)
            continue
        v = e.val
        if isinstance(v, T):
            v = F.value(j)
        fr.exits.append(Exit(e.kind, and_(pc, c), v, post.copy(), e.node))
        nb = or_(nb, c)
    st.become(post)
    fr.pc = and_(pc, not_(nb))
    if b.end is None and not b.exits:
        fr.pc = FALSE
    if orelse:
        if bc is not FALSE:
            ev.branch(bc, lambda f, x: None,
                      lambda f, x: ev.block(orelse, f, x), fr, st)
        else:
            ev.block(orelse, fr, st)
