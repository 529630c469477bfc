"""Values of closed summary terms over one order type (or one point of a
numeric sample).  This never touches repository code: it reads the value graph
that the evaluator derived from the source.  A term whose value the analysis
does not know raises Unk, and no verdict follows from it."""
import itertools
import zlib
import math
import warnings
from collections import Counter
from fractions import Fraction

import numpy as np

from .terms import T, cval
from . import terms as tm


class Unk(Exception):
    pass


class PyErr(Exception):
    def __init__(self, name):
        Exception.__init__(self, name)
        self.name = name


class Err:
    """Outcome of a computation that raises."""
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Err) and o.name == self.name

    def __hash__(self):
        return hash(('Err', self.name))

    def __repr__(self):
        return 'raises ' + self.name


class Ev:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'e%s' % self.n

    def __lt__(self, o):
        return repr(self) < repr(o)


class NewObj:
    __slots__ = ('site', 'vals', 'sort')

    def __init__(self, site, vals, sort):
        self.site, self.vals, self.sort = site, vals, sort

    def __eq__(self, o):
        return isinstance(o, NewObj) and (o.site, o.vals) == \
            (self.site, self.vals)

    def __hash__(self):
        return hash((self.site, self.vals))

    def __repr__(self):
        return 'new%s%s' % (self.site, list(self.vals) if self.vals else '')

    def __lt__(self, o):
        return repr(self) < repr(o)


class Obj:
    """Any other object (causet, shape, spacetime) of the model."""
    __slots__ = ('name', 'sort')

    def __init__(self, name, sort='any'):
        self.name, self.sort = name, sort

    def __repr__(self):
        return self.name

    def __lt__(self, o):
        return repr(self) < repr(o)


class Bag:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Bag) and \
            Counter(self.items) == Counter(o.items)

    def __hash__(self):
        return hash(frozenset(Counter(self.items).items()))

    def __len__(self):
        return len(self.items)

    def __repr__(self):
        return 'Bag%s' % (list(self.items),)


class FDict(dict):
    def __hash__(self):
        return id(self)


class Slice:
    def __init__(self, a, b, c):
        self.s = slice(a, b, c)

    def __hash__(self):
        return hash((self.s.start, self.s.stop, self.s.step))


class Fn:
    def __init__(self, f):
        self.f = f


EPS = 1e-9


def elems(v):
    """(items, ordered)"""
    if isinstance(v, frozenset):
        return list(v), len(v) < 2
    if isinstance(v, tuple):
        return list(v), True
    if isinstance(v, Bag):
        return list(v.items), len(v.items) < 2
    if isinstance(v, np.ndarray):
        return list(v), True
    if isinstance(v, dict):
        return list(v), True
    if isinstance(v, str):
        return list(v), True
    if v is None or isinstance(v, (bool, int, float)):
        raise PyErr('TypeError')
    raise Unk('iterate %r' % (type(v),))


def mkseq(items, ordered):
    return tuple(items) if ordered else Bag(items)


def isnum(v):
    return isinstance(v, (int, float, np.integer, np.floating, np.bool_,
                          Fraction))


class Model:
    """syms: name -> value; maps: field -> dict or function of the object."""
    def __init__(self, syms=None, maps=None, desc=''):
        self.syms = syms or {}
        self.maps = maps or {}
        self.desc = desc
        self.apps = {}

    def __repr__(self):
        return 'the rule'

    def map(self, field, o):
        m = self.maps.get(field)
        if m is None:
            raise Unk('field ' + field)
        if callable(m):
            return m(o)
        if o not in m:
            raise Unk('field %s of %r' % (field, o))
        return m[o]


class RecVal:
    def __init__(self, term, env):
        self.term, self.env = term, env
        self.memo, self.active, self.depth = {}, set(), 0


class Interp:
    def __init__(self, model, perm=0):
        self.m = model
        self.memo = {}
        self.steps = 0
        self.perm = perm
        self.free_order = False
        self.keep = []

    def outcome(self, term):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    return self.ev(term, {})
        except PyErr as e:
            return Err(e.name)
        except RecursionError:
            raise Unk('recursion')

    # ------------------------------------------------------------------
    def ev(self, t, env):
        op = t.op
        if op == 'const':
            return t.args[1]
        if op == 'bv':
            try:
                v = env[t.args[0]]
            except KeyError:
                raise Unk('unbound variable ' + t.args[0])
            if type(v) is Poison:
                raise v.kind(v.arg)
            return v
        fv = t.fv
        key = (t.id,) + tuple(hkey(env.get(v)) for v in sorted(fv)) if fv \
            else t.id
        r = self.memo.get(key)
        if r is not None:
            if type(r) is tuple and len(r) == 3 and r[0] is _EXC:
                raise r[1](r[2])
            return r[0]
        self.steps += 1
        if self.steps > 3000000:
            raise Unk('budget')
        try:
            v = self.go(t, env)
        except Unk as e:
            self.memo[key] = (_EXC, Unk, str(e))
            raise
        except PyErr as e:
            self.memo[key] = (_EXC, PyErr, e.name)
            raise
        self.memo[key] = (v,)
        return v

    def go(self, t, env):
        m = getattr(self, 'o_' + t.op, None)
        if m is None:
            raise Unk(t.op)
        return m(t, env)

    def truthy(self, v):
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if v is None:
            return False
        if isnum(v):
            return bool(v != 0)
        if isinstance(v, (frozenset, tuple, Bag, str, dict)):
            return len(v) > 0
        if isinstance(v, (Ev, NewObj, Obj)):
            return True
        if isinstance(v, np.ndarray):
            if v.size > 1:
                raise PyErr('ValueError')
            return bool(v.size and v.item())
        raise Unk('truth of %r' % type(v))

    def cond(self, t, env):
        return self.truthy(self.ev(t, env))

    # --------------------------------------------------------- atoms
    def o_sym(self, t, env):
        n = t.args[0]
        if n in self.m.syms:
            v = self.m.syms[n]
            if v is Unk:
                raise Unk(n)
            return v
        raise Unk('symbol ' + n)

    def o_opaque(self, t, env):
        raise Unk(t.args[0])

    def o_unbound(self, t, env):
        raise PyErr('UnboundLocalError')

    def o_raise(self, t, env):
        raise PyErr(t.args[0])

    def o_missing(self, t, env):
        raise PyErr('KeyError')

    def o_py(self, t, env):
        return t.args[0].o

    def o_new(self, t, env):
        return NewObj(t.args[0], tuple(self.ev(a, env) for a in t.args[1:]),
                      t.sort)

    def o_ref(self, t, env):
        raise Unk('reference')

    def o_mono(self, t, env):
        a = self.cond(t.args[0], env)
        b = self.cond(t.args[1], env)
        if a != b:
            raise Unk('mono')
        return a

    def o_either(self, t, env):
        a = self.ev(t.args[0], env)
        b = self.ev(t.args[1], env)
        if not same(a, b):
            x, p = self.ev(t.args[2], env), self.ev(t.args[3], env)
            items, ordered = self.elems(self.ev(t.args[4], env))
            if not ordered:
                self.free_order = True
                items = self.order(items)
            if x not in items or p not in items:
                raise Unk('depends on the order of the iterations')
            return a if items.index(x) < items.index(p) else b
        return a

    def o_assume(self, t, env):
        if not self.cond(t.args[0], env):
            raise Unk('assumption')
        return self.ev(t.args[1], env)

    # --------------------------------------------------------- logic
    def o_not(self, t, env):
        return not self.cond(t.args[0], env)

    def o_and(self, t, env):
        unk = None
        for a in t.args:
            try:
                if not self.cond(a, env):
                    return False
            except Unk as e:
                unk = e
            except PyErr as e:
                if unk:
                    raise unk
                raise
        if unk:
            raise unk
        return True

    def o_or(self, t, env):
        unk = None
        for a in t.args:
            try:
                if self.cond(a, env):
                    return True
            except Unk as e:
                unk = e
            except PyErr as e:
                if unk:
                    raise unk
                raise
        if unk:
            raise unk
        return False

    def o_ite(self, t, env):
        try:
            c = self.cond(t.args[0], env)
        except Unk:
            a = self._try(t.args[1], env)
            b = self._try(t.args[2], env)
            if same(a, b):
                if isinstance(a, Err):
                    raise PyErr(a.name)
                return a
            raise
        return self.ev(t.args[1] if c else t.args[2], env)

    def _try(self, t, env):
        try:
            return self.ev(t, env)
        except PyErr as e:
            return Err(e.name)

    def o_is(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(a, (Ev, Obj)) or isinstance(b, (Ev, Obj)):
            return a is b
        if a is None or b is None:
            return a is b
        if isinstance(a, (NewObj, bool)) and isinstance(b, (NewObj, bool)):
            return a == b
        if isinstance(a, bool) or isinstance(b, bool):
            # True and False are single objects
            if isinstance(a, (str, dict, tuple, float, FDict, frozenset)) \
                    or isinstance(b, (str, dict, tuple, float, frozenset)) \
                    or type(a) is int or type(b) is int:
                return False
        raise Unk('identity')

    def o_eq(self, t, env):
        return self.equal(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def equal(self, a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np.equal(a, b)
        if isnum(a) and isnum(b):
            if isinstance(a, (float, np.floating)) or \
                    isinstance(b, (float, np.floating)):
                if a != b and math.isfinite(a) and math.isfinite(b) and \
                        abs(a - b) <= EPS * max(1.0, abs(a), abs(b)):
                    raise Unk('float equality')
            return bool(a == b)
        if isinstance(a, (Bag,)) or isinstance(b, Bag):
            raise Unk('order')
        if isinstance(a, (Ev, Obj)):
            return a is b
        return a == b

    def o_lt(self, t, env):
        return self.less(t, env, True)

    def o_le(self, t, env):
        return self.less(t, env, False)

    def less(self, t, env, strict):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        return self.lessv(a, b, strict)

    def lessv(self, a, b, strict):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np.less(a, b) if strict else np.less_equal(a, b)
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            return a < b if strict else a <= b
        if isnum(a) and isnum(b):
            if isinstance(a, (float, np.floating)) or \
                    isinstance(b, (float, np.floating)):
                if math.isfinite(a) and math.isfinite(b) and a != b and \
                        abs(a - b) <= 1e-15 * max(abs(a), abs(b)):
                    raise Unk('float comparison')
            return bool(a < b) if strict else bool(a <= b)
        if isinstance(a, str) and isinstance(b, str):
            return a < b if strict else a <= b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a < b if strict else a <= b
        if a is None or b is None or isinstance(a, str) != \
                isinstance(b, str):
            raise PyErr('TypeError')
        raise Unk('comparison')

    def o_truth(self, t, env):
        return self.truthy(self.ev(t.args[0], env))

    # ------------------------------------------------------------ maps
    def o_sel(self, t, env):
        return self.select(t.args[0], self.ev(t.args[1], env), env)

    def select(self, m, o, env):
        while True:
            if m.op == 'map0':
                f = m.args[0]
                if '@' in f:
                    raise Unk('heap ' + f)
                return self.m.map(f, o)
            if m.op == 'store':
                p = self.ev(m.args[1], env)
                if p is o or p == o:
                    return self.ev(m.args[2], env)
                m = m.args[0]
            elif m.op == 'mapite':
                try:
                    c = self.cond(m.args[0], env)
                except Unk:
                    a = self.select(m.args[1], o, env)
                    b = self.select(m.args[2], o, env)
                    if same(a, b):
                        return a
                    raise
                m = m.args[1] if c else m.args[2]
            elif m.op == 'maplam':
                e2 = dict(env)
                e2[m.args[0]] = o
                return self.ev(m.args[2], e2)
            elif m.op == 'ite':
                m = m.args[1] if self.cond(m.args[0], env) else m.args[2]
            elif m.op in ('bv', 'foldget'):
                v = self.ev(m, env)
                if not isinstance(v, MapVal):
                    raise Unk('map ' + m.op)
                return v.at(o)
            else:
                raise Unk('map ' + m.op)

    # ------------------------------------------------------------ sets
    def setv(self, t, env):
        v = self.ev(t, env)
        return self.as_set(v)

    def as_set(self, v):
        if isinstance(v, frozenset):
            return v
        if isinstance(v, (tuple, Bag)):
            return frozenset(elems(v)[0])
        if isinstance(v, dict):
            return frozenset(v)
        if isinstance(v, np.ndarray) and v.ndim == 1:
            return frozenset(_py(x) for x in v)
        raise Unk('set of %r' % type(v))

    def o_set(self, t, env):
        return frozenset(hashable(self.ev(a, env)) for a in t.args)

    def o_lst(self, t, env):
        return tuple(self.ev(a, env) for a in t.args)

    def o_union(self, t, env):
        return self.setv(t.args[0], env) | self.setv(t.args[1], env)

    def o_inter(self, t, env):
        # a known empty operand decides
        try:
            a = self.setv(t.args[0], env)
        except Unk:
            b = self.setv(t.args[1], env)
            if not b:
                return frozenset()
            raise
        if not a:
            return a
        return a & self.setv(t.args[1], env)

    def o_diff(self, t, env):
        a = self.setv(t.args[0], env)
        if not a:
            return a
        return a - self.setv(t.args[1], env)

    def o_symdiff(self, t, env):
        return self.setv(t.args[0], env) ^ self.setv(t.args[1], env)

    def o_mem(self, t, env):
        x = self.ev(t.args[0], env)
        s = self.ev(t.args[1], env)
        if isinstance(s, frozenset):
            return x in s
        if isinstance(s, dict):
            return x in s
        if isinstance(s, str):
            if not isinstance(x, str):
                raise PyErr('TypeError')
            return x in s
        its, _ = elems(s)
        return any(self.truthy(self.equal(x, y)) if not isinstance(
            x, (Ev, NewObj, Obj)) else (x == y) for y in its)

    def o_toset(self, t, env):
        return self.as_set(self.ev(t.args[0], env))

    def elems(self, v):
        """As elems, with the elements of a set in the order of this run."""
        its, o = elems(v)
        if not o and not isinstance(v, Bag):
            its = self.order(its)
        return its, o

    def o_tolist(self, t, env):
        v = self.ev(t.args[0], env)
        return mkseq(*self.elems(v))

    def o_size(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, (frozenset, tuple, Bag, dict, str)):
            return len(v)
        if isinstance(v, np.ndarray):
            return v.shape[0]
        if v is None or isnum(v):
            raise PyErr('TypeError')
        raise Unk('size of %r' % type(v))

    def o_range(self, t, env):
        a = [self.ev(x, env) for x in t.args]
        if not all(isinstance(x, (int, np.integer)) for x in a):
            raise PyErr('TypeError')
        r = range(*[int(x) for x in a])
        if len(r) > 4000:
            raise Unk('range')
        return tuple(r)

    def o_rep(self, t, env):
        v = self.ev(t.args[0], env)
        n = self.ev(t.args[1], env)
        if isinstance(v, tuple) and isinstance(n, (int, np.integer)):
            return v * int(n)
        raise Unk('repeat')

    # --------------------------------------------------------- binders
    def each(self, t, env):
        return self.elems(self.ev(t.args[1], env))

    # ------------------------------------------------------------ folds
    def order(self, items):
        """One of the possible iteration orders of a set."""
        items = sorted(items, key=repr)
        k = len(items)
        if k > 1:
            p = self.perm
            if p == 1:
                items.reverse()
            elif p > 1:
                # the p-th permutation in factorial numbers
                out, q = [], p
                while items:
                    q, r = divmod(q, len(items))
                    out.append(items.pop(r))
                items = out
        return items

    def run_fold(self, t, env):
        names = t.args[0].split(',')
        n, hasend, kinds = t.args[1].split(';')
        n = int(n)
        src = t.args[2]
        inits = t.args[3:3 + n]
        dc = t.args[3 + n]
        ends = t.args[4 + n:4 + 2 * n]
        ex = t.args[4 + 2 * n:]
        exits = [(ex[j * (n + 2)], ex[j * (n + 2) + 1],
                  ex[j * (n + 2) + 2:(j + 1) * (n + 2)])
                 for j in range(len(kinds))]
        if src.op == 'app' and src.args[0] == 'forever':
            items = itertools.repeat(None, 64)
            bounded = True
        else:
            items, ordered = self.elems(self.ev(src, env))
            if not ordered:
                self.free_order = True
            if len(items) > 400:
                raise Unk('long loop')
            bounded = False
        cur = [self.state_value(x, env) for x in inits]
        e2 = dict(env)
        for x in items:
            e2 = dict(e2)
            e2[names[0]] = x
            for w, v in zip(names[1:], cur):
                e2[w] = v
            if not self.cond(dc, e2):
                continue
            for j, (c, v, states) in enumerate(exits):
                if self.cond(c, e2):
                    return ([self.state_value(y, e2) for y in states], j,
                            self.state_value(v, e2))
            if hasend == '0':
                raise Unk('no exit of the loop body')
            cur = [self.state_value(y, e2) for y in ends]
        if bounded:
            raise Unk('unbounded loop')
        return cur, None, None

    def state_value(self, x, env):
        if x.sort.startswith('map:') or x.op in ('map0', 'store', 'mapite',
                                                 'maplam'):
            return MapVal(self, x, env)
        try:
            return self.ev(x, env)
        except Unk as e:
            return Poison(Unk, str(e))
        except PyErr as e:
            return Poison(PyErr, e.name)

    def o_unbound(self, t, env):
        raise PyErr('UnboundLocalError')

    def o_fold(self, t, env):
        r = self.run_fold(t, env)
        self.keep.append(r)
        return r

    # -------------------------------------------------------- recursion
    def o_rec(self, t, env):
        return RecVal(t, {v: env[v] for v in t.fv if v in env})

    def o_recall(self, t, env):
        f = self.ev(t.args[0], env)
        vals = [self.state_value(x, env) for x in t.args[1:]]
        for v in vals:
            if isinstance(v, Poison):
                raise v.kind(v.arg)
        try:
            key = tuple(hkey(v) for v in vals)
            if key in f.memo:
                return f.memo[key]
        except TypeError:
            key = None
        if key is not None and key in f.active:
            raise PyErr('RecursionError')
        if f.depth > 24:
            raise Unk('deep recursion')
        names = f.term.args[0].split(',')
        e2 = dict(f.env)
        e2[names[0]] = f
        e2.update(zip(names[1:], vals))
        f.depth += 1
        f.active.add(key)
        try:
            r = [self.state_value(x, e2) for x in f.term.args[1:]]
        finally:
            f.depth -= 1
            f.active.discard(key)
        self.keep.append(r)
        if key is not None:
            f.memo[key] = r
        return r

    def o_recget(self, t, env):
        v = self.ev(t.args[0], env)[cval(t.args[1])]
        if isinstance(v, Poison):
            raise v.kind(v.arg)
        return v

    def o_foldget(self, t, env):
        v = self.ev(t.args[0], env)[0][cval(t.args[1])]
        if isinstance(v, Poison):
            raise v.kind(v.arg)
        return v

    def o_foldexit(self, t, env):
        return self.ev(t.args[0], env)[1] == cval(t.args[1])

    def o_foldval(self, t, env):
        r = self.ev(t.args[0], env)
        if r[1] != cval(t.args[1]):
            raise Unk('other exit')
        v = r[2]
        if isinstance(v, Poison):
            raise v.kind(v.arg)
        return v

    def o_exists(self, t, env):
        its, _ = self.each(t, env)
        e2 = dict(env)
        unk = None
        for x in its:
            e2[t.args[0]] = x
            try:
                if self.cond(t.args[2], e2):
                    return True
            except Unk as e:
                unk = e
        if unk:
            raise unk
        return False

    def o_img(self, t, env):
        its, _ = self.each(t, env)
        e2 = dict(env)
        out = set()
        for x in its:
            e2[t.args[0]] = x
            if self.cond(t.args[2], e2):
                out.add(hashable(self.ev(t.args[3], e2)))
        return frozenset(out)

    def o_lmap(self, t, env):
        its, o = self.each(t, env)
        e2 = dict(env)
        out = []
        for x in its:
            e2[t.args[0]] = x
            if self.cond(t.args[2], e2):
                out.append(self.ev(t.args[3], e2))
        return mkseq(out, o or len(out) < 2)

    def o_lflat(self, t, env):
        its, o = self.each(t, env)
        e2 = dict(env)
        out = []
        for x in its:
            e2[t.args[0]] = x
            if self.cond(t.args[2], e2):
                y, oo = self.elems(self.ev(t.args[3], e2))
                o = o and oo
                out.extend(y)
        return mkseq(out, o or len(out) < 2)

    def _pick(self, t, env, last):
        its, o = self.each(t, env)
        e2 = dict(env)
        vals = []
        for x in (reversed(its) if last else its):
            e2[t.args[0]] = x
            if self.cond(t.args[2], e2):
                vals.append(self.ev(t.args[3], e2))
                if o:
                    return vals[0]
        if not vals:
            raise Unk('empty choice')
        for v in vals[1:]:
            if not same(v, vals[0]):
                self.free_order = True
                break
        return vals[0]

    def o_first(self, t, env):
        return self._pick(t, env, False)

    def o_last(self, t, env):
        return self._pick(t, env, True)

    def o_lfp(self, t, env):
        v, init, body = t.args
        cur = self.setv(init, env)
        e2 = dict(env)
        for _ in range(40):
            e2[v] = cur
            nxt = self.setv(body, e2)
            if len(nxt) == len(cur):
                return nxt
            cur = nxt
        raise Unk('no convergence')

    # ------------------------------------------------------ arithmetic
    def num2(self, t, env):
        return self.ev(t.args[0], env), self.ev(t.args[1], env)

    def arith(self, a, b, f):
        for x in (a, b):
            if not isnum(x) and not isinstance(x, np.ndarray):
                if x is None or isinstance(x, (str, frozenset)):
                    raise PyErr('TypeError')
                raise Unk('arithmetic')
        try:
            return f(a, b)
        except ZeroDivisionError:
            raise PyErr('ZeroDivisionError')
        except ValueError:
            if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
                raise PyErr('ValueError')       # shapes do not match
            raise Unk('value')
        except OverflowError:
            raise Unk('overflow')

    def o_add(self, t, env):
        a, b = self.num2(t, env)
        if isinstance(a, (tuple, Bag)) and isinstance(b, (tuple, Bag)):
            (x, o1), (y, o2) = self.elems(a), self.elems(b)
            return mkseq(x + y, (o1 and o2) or len(x) + len(y) < 2)
        if isinstance(a, tuple) and isinstance(b, np.ndarray):
            a = np.array(a)
        if isinstance(b, tuple) and isinstance(a, np.ndarray):
            b = np.array(b)
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        return self.arith(a, b, lambda x, y: x + y)

    def o_sub(self, t, env):
        a, b = self.num2(t, env)
        a, b = arr_pair(a, b)
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            return a - b
        return self.arith(a, b, lambda x, y: x - y)

    def o_mul(self, t, env):
        a, b = self.num2(t, env)
        if isinstance(a, tuple) and isinstance(b, (int, np.integer)):
            return a * int(b)
        a, b = arr_pair(a, b)
        return self.arith(a, b, lambda x, y: x * y)

    def o_div(self, t, env):
        a, b = self.num2(t, env)
        a, b = arr_pair(a, b)
        return self.arith(a, b, lambda x, y: x / y)

    def o_floordiv(self, t, env):
        a, b = self.num2(t, env)
        return self.arith(a, b, lambda x, y: x // y)

    def o_mod(self, t, env):
        a, b = self.num2(t, env)
        if isinstance(a, str):
            raise Unk('str format')
        return self.arith(a, b, lambda x, y: x % y)

    def o_pow(self, t, env):
        a, b = self.num2(t, env)

        def f(x, y):
            r = x ** y
            if isinstance(r, complex):
                raise Unk('complex')
            return r
        return self.arith(a, b, f)

    def o_neg(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, np.ndarray) or isnum(v):
            return -v
        if isinstance(v, (tuple, str, frozenset)) or v is None:
            raise PyErr('TypeError')
        raise Unk('neg')

    # ------------------------------------------------------- containers
    def o_idx(self, t, env):
        v = self.ev(t.args[0], env)
        i = self.ev(t.args[1], env)
        return self.index(v, i)

    def index(self, v, i):
        if isinstance(v, dict):
            if i in v:
                return v[i]
            raise PyErr('KeyError')
        if isinstance(v, (tuple, str)):
            if isinstance(i, (int, np.integer)) and \
                    not isinstance(i, (bool, np.bool_)):
                if -len(v) <= i < len(v):
                    return v[int(i)]
                raise PyErr('IndexError')
            raise PyErr('TypeError')
        if isinstance(v, np.ndarray):
            try:
                return _py(v[i])
            except IndexError:
                raise PyErr('IndexError')
        if isinstance(v, Bag):
            if v.items and all(same(x, v.items[0]) for x in v.items):
                return v.items[0]
            if isinstance(i, (int, np.integer)) and \
                    not isinstance(i, (bool, np.bool_)):
                self.free_order = True
                return self.index(v.items, i)
            raise Unk('order')
        if v is None or isnum(v) or isinstance(v, frozenset):
            raise PyErr('TypeError')
        raise Unk('index of %r' % type(v))

    def key(self, t, env):
        v = self.ev(t, env)
        return tokey(v)

    def o_slice(self, t, env):
        return Slice(*[self.ev(a, env) for a in t.args])

    def o_item(self, t, env):
        v = self.ev(t.args[0], env)
        k = tokey(self.ev(t.args[1], env))
        if t.args[1].op != 'lst' and isinstance(k, tuple):
            k = list(k)
        if isinstance(k, np.ndarray) and k.size == 0:
            k = k.astype(int)
        if isinstance(v, (tuple, str)) and isinstance(k, (list, np.ndarray)):
            raise PyErr('TypeError')
        if isinstance(v, (tuple, str)):
            if isinstance(k, slice):
                return v[k]
            raise Unk('item')
        if isinstance(v, np.ndarray):
            try:
                return _py(v[k])
            except IndexError:
                raise PyErr('IndexError')
        raise Unk('item of %r' % type(v))

    def o_fillL(self, t, env):
        v = self.ev(t.args[0], env)
        ent = self.ev(t.args[1], env)
        its, ordered = elems(ent)
        if isinstance(v, Bag):
            self.free_order = True
            v = v.items
        if isinstance(v, tuple):
            out = list(v)
            seen = {}
            for k, x in its:
                k = tokey(k)
                if isinstance(k, slice):
                    raise Unk('slice store')
                if isinstance(k, (bool, np.bool_)) or not isinstance(
                        k, (int, np.integer)):
                    raise Unk('key')
                if not -len(out) <= k < len(out):
                    raise PyErr('IndexError')
                k = int(k) % len(out)
                if not ordered and k in seen and not same(seen[k], x):
                    raise Unk('order')
                seen[k] = x
                out[k] = x
            return tuple(out)
        if isinstance(v, np.ndarray):
            a = v.copy()
            if not ordered:
                seen = {}
                for k, x in its:
                    kk = repr(k)
                    if kk in seen and not same(seen[kk], x):
                        raise Unk('order')
                    seen[kk] = x
            for k, x in its:
                k = tokey(k)
                try:
                    if isinstance(x, (tuple, Bag)):
                        if isinstance(x, Bag):
                            raise Unk('order')
                        x = np.array(x)
                    if isinstance(x, (Ev, NewObj, Obj)) or x is None:
                        if a.dtype != object:
                            a = a.astype(object)
                    a[k] = x
                except IndexError:
                    raise PyErr('IndexError')
                except ValueError:
                    raise PyErr('ValueError')
                except TypeError:
                    raise Unk('store')
            return a
        if isinstance(v, dict):
            d = FDict(v)
            for k, x in its:
                d[hashable(k)] = x
            return d
        raise Unk('fill of %r' % type(v))

    # ------------------------------------------------------------ dicts
    def o_dict(self, t, env):
        return FDict()

    def o_dstore(self, t, env):
        d = FDict(self.ev(t.args[0], env))
        d[hashable(self.ev(t.args[1], env))] = self.ev(t.args[2], env)
        return d

    def o_ddel(self, t, env):
        d = FDict(self.ev(t.args[0], env))
        d.pop(self.ev(t.args[1], env), None)
        return d

    def o_dupd(self, t, env):
        d = FDict(self.ev(t.args[0], env))
        e = self.ev(t.args[1], env)
        if not isinstance(e, dict):
            raise Unk('dict update')
        d.update(e)
        return d

    def o_dhas(self, t, env):
        d = self.ev(t.args[0], env)
        if not isinstance(d, dict):
            raise Unk('dict')
        return hashable(self.ev(t.args[1], env)) in d

    def o_dget(self, t, env):
        d = self.ev(t.args[0], env)
        if not isinstance(d, dict):
            raise Unk('dict')
        k = hashable(self.ev(t.args[1], env))
        if k not in d:
            raise PyErr('KeyError')
        return d[k]

    def o_kw(self, t, env):
        raise Unk('keyword')

    def o_apply(self, t, env):
        f = self.ev(t.args[0], env)
        if isinstance(f, Fn):
            return f.f(*[self.ev(a, env) for a in t.args[1:]])
        raise Unk('apply')

    def o_attr(self, t, env):
        raise Unk('attr ' + t.args[1])

    # -------------------------------------------------------- functions
    def o_app(self, t, env):
        name = t.args[0]
        f = APPS.get(name)
        if name in self.m.apps:
            return self.m.apps[name](
                *[self.ev(a, env) for a in t.args[1:] if a.op != 'kw'],
                **{a.args[0]: self.ev(a.args[1], env) for a in t.args[1:]
                   if a.op == 'kw'})
        if f is not None:
            return f(self, t, env)
        kw = {}
        args = []
        for a in t.args[1:]:
            if a.op == 'kw':
                kw[a.args[0]] = self.ev(a.args[1], env)
            else:
                args.append(self.ev(a, env))
        if name.startswith('math.'):
            fn = getattr(math, name[5:], None)
            if fn is None or kw:
                raise Unk(name)
            try:
                if name in ('math.prod', 'math.fsum'):
                    return fn(elems(args[0])[0])
                if name == 'math.dist':
                    return fn([float(x) for x in args[0]],
                              [float(x) for x in args[1]])
                if not all(isnum(x) for x in args):
                    if any(isinstance(x, np.ndarray) and x.ndim
                           for x in args) or any(
                               x is None or isinstance(x, str)
                               for x in args):
                        raise PyErr('TypeError')
                    raise Unk(name)
                return fn(*args)
            except ValueError:
                raise PyErr('ValueError')
            except OverflowError:
                raise Unk('overflow')
        if name in ('np.argsort', 'np.sort', '.argsort', 'np.lexsort',
                    'np.flipud', 'np.flip') and len(args) == 1:
            return arg_sort(name, np_arg(args[0], self), kw, self)
        if name.startswith('np.') and name in NP_OK:
            fn = np
            for part in name[3:].split('.'):
                fn = getattr(fn, part, None)
                if fn is None:
                    raise Unk(name)
            a2 = [np_arg(x, self) for x in args]
            k2 = {k: np_arg(v, self) for k, v in kw.items() if k != 'dtype'}
            if 'dtype' in kw:
                k2['dtype'] = to_dtype(kw['dtype'])
            try:
                return _py(fn(*a2, **k2))
            except (ValueError,):
                raise PyErr('ValueError')
            except IndexError:
                raise PyErr('IndexError')
            except TypeError:
                raise Unk(name)
        if name.startswith('.'):
            v = args[0]
            if isinstance(v, str) and name[1:] in STR_OK:
                try:
                    return getattr(v, name[1:])(*args[1:], **kw)
                except TypeError:
                    raise PyErr('TypeError')
                except ValueError:
                    raise PyErr('ValueError')
                except (IndexError, KeyError) as e:
                    raise PyErr(type(e).__name__)
            if isinstance(v, tuple) and name in ('.index', '.count') and \
                    len(args) == 2 and not kw:
                hit = [i for i, x in enumerate(v)
                       if self.equal(x, args[1]) is True]
                if name == '.count':
                    return len(hit)
                if not hit:
                    raise PyErr('ValueError')
                return hit[0]
            if isinstance(v, np.ndarray) and name[1:] in (
                    'flatten', 'ravel', 'reshape', 'copy', 'argmax',
                    'argmin', 'cumsum', 'any', 'all', 'sum', 'max', 'min'):
                try:
                    return _py(getattr(v, name[1:])(*[
                        np_arg(x, self) for x in args[1:]], **kw))
                except Exception:
                    raise Unk(name)
        raise Unk('function ' + name)


_EXC = object()


def arg_sort(name, v, kw, I):
    try:
        v = np.asarray(v)
    except ValueError:
        raise PyErr('ValueError')
    if name == 'np.lexsort':
        if kw or v.dtype == object or v.ndim != 2:
            raise Unk(name)
        return np.lexsort(v)
    if name in ('np.flip', 'np.flipud'):
        if kw or v.dtype == object:
            raise Unk(name)
        return np.flip(v)
    if v.dtype == object and v.ndim == 1 and v.size > 1 and \
            any(x is None for x in v):
        raise PyErr('TypeError')        # every item is compared
    if v.dtype == object and v.size > 1 or v.ndim != 1 or \
            set(kw) - {'kind'}:
        raise Unk(name)
    if name == 'np.sort':
        return np.sort(v)
    if len(set(v.tolist())) < v.size and kw.get('kind') != 'stable':
        # equal values in any order
        I.free_order = True
        idx = np.array(I.order(range(v.size)), dtype=int)
        return idx[np.argsort(v[idx], kind='stable')]
    return np.argsort(v, kind='stable')


def _py(x):
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype == object:
        return x.item()
    if isinstance(x, tuple):
        return tuple(_py(y) for y in x)
    return x


class Poison:
    """A state value that is not known or not bound."""
    __slots__ = ('kind', 'arg')

    def __init__(self, kind, arg):
        self.kind, self.arg = kind, arg

    def __eq__(self, o):
        return isinstance(o, Poison) and (o.kind, o.arg) == (self.kind,
                                                             self.arg)

    def __hash__(self):
        return hash((self.kind, self.arg))


class MapVal:
    """A heap field in a state of a fold."""
    def __init__(self, interp, term, env):
        self.i, self.t, self.env = interp, term, env
        self.memo = {}
        interp.keep.append(self)

    def at(self, o):
        r = self.memo.get(o)
        if r is None:
            try:
                r = self.i.select(self.t, o, self.env)
            except Unk as e:
                r = Poison(Unk, str(e))
            except PyErr as e:
                r = Poison(PyErr, e.name)
            self.memo[o] = (r,)
        else:
            r = r[0]
        if isinstance(r, Poison):
            raise r.kind(r.arg)
        return r


def hkey(v):
    if isinstance(v, np.ndarray):
        return ('arr', v.shape, v.tobytes() if v.dtype != object
                else tuple(map(id, v.flat)))
    if isinstance(v, tuple):
        return tuple(hkey(x) for x in v)
    if isinstance(v, Bag):
        return ('bag',) + tuple(hkey(x) for x in v.items)
    if isinstance(v, dict):
        return id(v)
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, float):
        return ('f', v)
    return v


def hashable(v):
    if isinstance(v, np.ndarray):
        raise PyErr('TypeError')
    if isinstance(v, (FDict,)):
        raise PyErr('TypeError')
    return v


def arr_pair(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, tuple):
        return a, np.array(b)
    if isinstance(b, np.ndarray) and isinstance(a, tuple):
        return np.array(a), b
    return a, b


def np_arg(x, I=None):
    if isinstance(x, Bag):
        if I is None:
            raise Unk('order')
        I.free_order = True
        x = tuple(x.items)
    if isinstance(x, tuple):
        return [np_arg(y, I) for y in x]
    if isinstance(x, frozenset):
        raise Unk('set as array')
    return x


def to_dtype(x):
    n = getattr(x, 'name', None)
    m = {'bool': bool, 'int': int, 'float': float, 'object': object,
         'np.bool_': bool, 'np.float64': float, 'np.int64': int,
         'np.int_': int, 'np.float_': float, 'np.float32': np.float32}
    if n in m:
        return m[n]
    if isinstance(x, str):
        return x
    raise Unk('dtype')


def tokey(v):
    if isinstance(v, Slice):
        return v.s
    if isinstance(v, tuple):
        return tuple(tokey(x) for x in v)
    return v


STR_OK = {'startswith', 'endswith', 'lower', 'upper', 'strip', 'lstrip',
          'rstrip', 'removeprefix', 'removesuffix', 'replace', 'find',
          'index', 'count', 'capitalize', 'title', 'isdigit', 'split',
          'rsplit', 'partition', 'rpartition', 'format', 'casefold',
          'isalpha', 'isspace', 'isnumeric', 'zfill', 'join'}
NP_OK = {'np.' + x for x in '''shape ndim size sum max min dot inner sqrt square abs absolute
sin cos tan exp log power maximum minimum sign prod cosh sinh arccos arctan
arctanh tanh arcsin mean amax amin arctan2 ceil floor round mod fabs hypot
arcsinh arccosh outer zeros ones eye zeros_like full_like diagonal any all where unique
multiply add subtract divide logical_and logical_or logical_not concatenate
transpose diff triu tril isscalar cumsum copy full linalg.norm linspace
arange identity isclose allclose array_equal count_nonzero matmul heaviside
clip append stack vstack hstack asarray ndim size trace float_power cbrt
less less_equal greater greater_equal equal not_equal flip roll
logical_and.reduce logical_or.reduce einsum tile repeat
copysign fliplr flipud rot90 isnan isfinite isinf geomspace logspace
atleast_1d atleast_2d squeeze ravel reshape expand_dims column_stack dstack
deg2rad radians degrees rad2deg interp sort argsort argmin argmax cross vdot
tensordot nanmin nanmax broadcast_to negative positive reciprocal log1p expm1
log2 log10 exp2 floor_divide remainder fmod rint trunc ptp fmax fmin cumprod
swapaxes moveaxis full_like ones_like'''.split()}


def same(a, b):
    if a is b:
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(same(x, y) for x, y in zip(a.flat, b.flat))
        return bool(np.array_equal(a, b) or np.allclose(
            a.astype(float), b.astype(float), rtol=1e-7, atol=1e-9,
            equal_nan=True))
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b or \
            (isnum(a) and isnum(b) and float(a) == float(b))
    if isnum(a) and isnum(b):
        if a == b:
            return True
        try:
            if math.isnan(a) and math.isnan(b):
                return True
            if math.isinf(a) or math.isinf(b):
                return False
            return abs(a - b) <= 1e-7 * max(1e-3, abs(a), abs(b))
        except OverflowError:
            return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (Ev, Obj)) or isinstance(b, (Ev, Obj)):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


# ------------------------------------------------------------ app table
def seqv(I, t, env):
    return elems(I.ev(t, env))


def a_sumL(I, t, env):
    its, _ = seqv(I, t.args[1], env)
    r = 0
    for x in its:
        if isnum(x):
            r = r + x
        elif isinstance(x, np.ndarray):
            r = r + x
        else:
            raise PyErr('TypeError')
    return _py(r)


def a_prodL(I, t, env):
    its, _ = seqv(I, t.args[1], env)
    r = 1
    for x in its:
        r = r * x
    return _py(r)


def a_ext(name):
    def f(I, t, env):
        its, _ = seqv(I, t.args[1], env)
        if not its:
            if len(t.args) > 2:
                return I.ev(t.args[2], env)
            raise PyErr('ValueError')
        try:
            return _py((max if name == 'max' else min)(its))
        except (TypeError, ValueError):
            raise Unk(name)
    return f


def a_ext2(name):
    def f(I, t, env):
        a, b = I.ev(t.args[1], env), I.ev(t.args[2], env)
        if isnum(a) and isnum(b):
            return max(a, b) if name == 'max' else min(a, b)
        if isinstance(a, (str, tuple)) and type(a) is type(b):
            return max(a, b) if name == 'max' else min(a, b)
        if all(isnum(x) or isinstance(x, np.ndarray) and x.size == 1
               for x in (a, b)):
            return (max if name == 'max' else min)(a, b)
        if a is None or b is None:
            raise PyErr('TypeError')
        raise Unk(name)
    return f


def a_unionL(I, t, env):
    its, _ = seqv(I, t.args[1], env)
    r = frozenset()
    for x in its:
        r |= I.as_set(x)
    return r


def a_interL(I, t, env):
    r = I.setv(t.args[1], env)
    its, _ = seqv(I, t.args[2], env)
    for x in its:
        r &= I.as_set(x)
    return r


def a_interL1(I, t, env):
    its, _ = seqv(I, t.args[1], env)
    if not its:
        raise PyErr('TypeError')
    r = I.as_set(its[0])
    for x in its[1:]:
        r &= I.as_set(x)
    return r


def a_diffunion(I, t, env):
    i = I.setv(t.args[1], env)
    a = I.setv(t.args[2], env)
    b = I.setv(t.args[3], env)
    if a & b:
        raise Unk('order of additions and removals')
    return (i - a) | b


def a_enumerate(I, t, env):
    its, o = seqv(I, t.args[1], env)
    st = I.ev(t.args[2], env) if len(t.args) > 2 else 0
    if not o:
        I.free_order = True
    return tuple((i + st, x) for i, x in enumerate(its))


def a_zip(I, t, env):
    ss = [seqv(I, a, env) for a in t.args[1:]]
    if not all(o for _, o in ss):
        raise Unk('order')
    return tuple(zip(*[s for s, _ in ss]))


def a_comb(I, t, env):
    its, o = seqv(I, t.args[1], env)
    k = I.ev(t.args[2], env)
    r = list(itertools.combinations(its, int(k)))
    if not o:
        I.free_order = True
    return tuple(r)


def a_product(I, t, env):
    ss = [seqv(I, a, env) for a in t.args[1:]]
    return mkseq(list(itertools.product(*[s for s, _ in ss])),
                 all(o for _, o in ss))


def a_reversed(I, t, env):
    its, o = seqv(I, t.args[1], env)
    return mkseq(list(reversed(its)), o)


def a_sorted(I, t, env):
    its, o = seqv(I, t.args[1], env)
    rev = I.ev(t.args[2], env)
    if all(isnum(x) for x in its) or all(isinstance(x, str) for x in its):
        return tuple(sorted(its, reverse=bool(rev)))
    raise Unk('sorted')


def a_sortedby(I, t, env):
    its, o = I.elems(I.ev(t.args[1], env))
    keys, _ = I.elems(I.ev(t.args[2], env))
    rev = bool(I.ev(t.args[3], env))
    keys = list(keys)
    if len(keys) != len(its):
        raise Unk('keys')

    def plain(k):
        return isnum(k) or isinstance(k, str) or \
            isinstance(k, tuple) and all(plain(x) for x in k)
    if not all(plain(k) for k in keys):
        raise Unk('sort key')
    if not o and len(set(keys)) < len(keys):
        I.free_order = True
    try:
        ix = sorted(range(len(keys)), key=lambda i: keys[i], reverse=rev)
    except TypeError:
        raise PyErr('TypeError')
    return tuple(its[i] for i in ix)


def a_extby(name):
    def f(I, t, env):
        its, o = I.elems(I.ev(t.args[1], env))
        keys, _ = I.elems(I.ev(t.args[2], env))
        if len(keys) != len(its):
            raise Unk('keys')
        if not its:
            raise PyErr('ValueError')
        if not o:
            I.free_order = True
        if not all(isnum(k) for k in keys):
            raise Unk('key')
        i = (min if name == 'min' else max)(range(len(keys)),
                                            key=lambda i: keys[i])
        return its[i]
    return f


def a_anyof(I, t, env):
    v = I.ev(t.args[1], env)
    if not isinstance(v, frozenset):
        raise Unk('pop')
    if not v:
        raise PyErr('KeyError')
    if len(v) > 1:
        I.free_order = True
    return I.order(list(v))[0]


def _seq(I, t, env):
    v = I.ev(t, env)
    if isinstance(v, Bag):
        I.free_order = True
        return list(v.items)
    if isinstance(v, tuple):
        return list(v)
    raise Unk('list')


def a_popat(I, t, env):
    v = _seq(I, t.args[1], env)
    k = I.ev(t.args[2], env)
    if not isinstance(k, (int, np.integer)):
        raise Unk('index')
    try:
        v.pop(int(k))
    except IndexError:
        raise PyErr('IndexError')
    return tuple(v)


def a_insertat(I, t, env):
    v = _seq(I, t.args[1], env)
    k = I.ev(t.args[2], env)
    if not isinstance(k, (int, np.integer)):
        raise Unk('index')
    v.insert(int(k), I.ev(t.args[3], env))
    return tuple(v)


def a_lremove(I, t, env):
    v = _seq(I, t.args[1], env)
    x = I.ev(t.args[2], env)
    for i, y in enumerate(v):
        if (x is y) or (not isinstance(x, (Ev, Obj)) and
                        I.truthy(I.equal(x, y))):
            del v[i]
            return tuple(v)
    raise PyErr('ValueError')


def a_lindex(I, t, env):
    its, o = seqv(I, t.args[1], env)
    x = I.ev(t.args[2], env)
    if len(t.args) > 3:
        raise Unk('index in a range')
    if not o:
        I.free_order = True
    for i, y in enumerate(its):
        if (x is y) or (not isinstance(x, (Ev, Obj)) and
                        I.truthy(I.equal(x, y))):
            return i
    raise PyErr('ValueError')


def a_lcount(I, t, env):
    its, o = seqv(I, t.args[1], env)
    x = I.ev(t.args[2], env)
    return sum(1 for y in its if (x is y) or (
        not isinstance(x, (Ev, Obj)) and I.truthy(I.equal(x, y))))


def a_keys(I, t, env):
    d = I.ev(t.args[1], env)
    if not isinstance(d, dict):
        raise Unk('keys')
    return tuple(d)


def a_values(I, t, env):
    d = I.ev(t.args[1], env)
    if not isinstance(d, dict):
        raise Unk('values')
    return tuple(d.values())


def a_items(I, t, env):
    d = I.ev(t.args[1], env)
    if not isinstance(d, dict):
        raise Unk('items')
    return tuple(d.items())


def a_dictL(I, t, env):
    v = I.ev(t.args[1], env)
    if isinstance(v, dict):
        return FDict(v)
    its, o = seqv(I, t.args[1], env)
    d = FDict()
    for kv in its:
        k, v = kv
        k = hashable(k)
        if not o and k in d and not same(d[k], v):
            raise Unk('order')
        d[k] = v
    return d


def a_abs(I, t, env):
    v = I.ev(t.args[1], env)
    if isnum(v) or isinstance(v, np.ndarray):
        return abs(v)
    raise Unk('abs')


def a_int(I, t, env):
    v = I.ev(t.args[1], env)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyErr('ValueError')
    if isinstance(v, np.ndarray) and v.size == 1:
        v = _py(v.reshape(-1)[0])
    if isnum(v):
        if isinstance(v, float) and (math.isinf(v)):
            raise PyErr('OverflowError')
        if isinstance(v, float) and (math.isnan(v)):
            raise PyErr('ValueError')
        if isinstance(v, float) and abs(v - round(v)) < 1e-9 and \
                v != round(v):
            raise Unk('int of float')
        return int(v)
    if v is None or isinstance(v, (tuple, frozenset)):
        raise PyErr('TypeError')
    raise Unk('int')


def a_float(I, t, env):
    v = I.ev(t.args[1], env)
    if isinstance(v, np.ndarray) and v.size == 1:
        v = _py(v.reshape(-1)[0])
    if isnum(v):
        return float(v)
    if v is None or isinstance(v, (tuple, frozenset)):
        raise PyErr('TypeError')
    raise Unk('float')


def a_round(I, t, env):
    a = [I.ev(x, env) for x in t.args[1:]]
    if all(isnum(x) for x in a):
        return round(*a)
    raise Unk('round')


def a_isinstance(I, t, env):
    v = I.ev(t.args[1], env)
    n = t.args[2].args[1]
    m = {'int': lambda: isinstance(v, (int, np.integer)),
         'float': lambda: isinstance(v, (float, np.floating)),
         'str': lambda: isinstance(v, str),
         'bool': lambda: isinstance(v, (bool, np.bool_)),
         'list': lambda: isinstance(v, tuple) and True,
         'tuple': lambda: None,
         'dict': lambda: isinstance(v, dict),
         'set': lambda: isinstance(v, frozenset),
         'np.ndarray': lambda: isinstance(v, np.ndarray)}
    if n == 'list' and isinstance(v, tuple):
        if t.args[1].op == 'lst' or len(v) == 0:
            raise Unk('list or tuple')
        return True
    if n == 'tuple' and isinstance(v, tuple):
        raise Unk('list or tuple')
    if n in m:
        r = m[n]()
        if r is None:
            return False
        return r
    raise Unk('isinstance')


def a_shape(I, t, env):
    v = I.ev(t.args[1], env)
    if isinstance(v, np.ndarray):
        return tuple(int(x) for x in v.shape)
    raise Unk('shape')


def a_ndim(I, t, env):
    v = I.ev(t.args[1], env)
    if isinstance(v, np.ndarray):
        return v.ndim
    if isnum(v):
        return 0
    raise Unk('ndim')


def a_sizeattr(I, t, env):
    v = I.ev(t.args[1], env)
    if isinstance(v, np.ndarray):
        return v.size
    raise Unk('size')


def a_transpose(I, t, env):
    v = I.ev(t.args[1], env)
    if isinstance(v, np.ndarray):
        return v.T
    raise Unk('T')


def a_tclosure(I, t, env):
    v = I.ev(t.args[1], env)
    n = I.ev(t.args[2], env)
    if not isinstance(v, np.ndarray) or v.ndim != 2 or \
            v.shape[0] != v.shape[1] or n != v.shape[0]:
        raise Unk('closure')
    R = v.astype(bool)
    while True:
        S = R | (R.astype(int) @ R.astype(int) > 0)
        if (S == R).all():
            return R
        R = S


def a_array(I, t, env):
    v = I.ev(t.args[1], env)
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, Bag):
        I.free_order = True
        v = v.items
    if isinstance(v, (tuple,)):
        if any(isinstance(x, (Ev, NewObj, Obj)) for x in v):
            a = np.empty(len(v), dtype=object)
            for i, x in enumerate(v):
                a[i] = x
            return a
        try:
            return np.array(np_arg(v))
        except ValueError:
            raise PyErr('ValueError')
    if isinstance(v, Bag):
        raise Unk('order')
    if isnum(v):
        return np.array(v)
    raise Unk('array')


def a_bitop(f):
    def g(I, t, env):
        a, b = I.ev(t.args[1], env), I.ev(t.args[2], env)
        ok = (int, bool, np.ndarray, frozenset, np.bool_, np.integer)
        if isinstance(a, ok) and isinstance(b, ok):
            try:
                return _py(f(a, b))
            except TypeError:
                raise PyErr('TypeError')
            except ValueError:
                raise PyErr('ValueError')
        if isinstance(a, (tuple, Bag)) or isinstance(b, (tuple, Bag)):
            raise PyErr('TypeError')
        raise Unk('bitop')
    return g


def a_invert(I, t, env):
    v = I.ev(t.args[1], env)
    if isinstance(v, np.ndarray):
        return ~v
    raise Unk('invert')


def a_cmp(f):
    def g(I, t, env):
        a, b = I.ev(t.args[1], env), I.ev(t.args[2], env)
        a, b = arr_pair(a, b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return {'lt': np.less, 'le': np.less_equal, 'gt': np.greater,
                    'ge': np.greater_equal, 'eq': np.equal,
                    'ne': np.not_equal}[f](a, b)
        if f in ('eq', 'ne'):
            v = I.equal(a, b)
            return v if f == 'eq' else not v
        if f in ('gt', 'ge'):
            a, b = b, a
        return I.lessv(a, b, f in ('lt', 'gt'))
    return g


def a_astype(I, t, env):
    v = I.ev(t.args[1], env)
    d = I.ev(t.args[2], env)
    if isinstance(v, np.ndarray):
        return v.astype(to_dtype(d))
    raise Unk('astype')


def a_fmt(I, t, env):
    v = I.ev(t.args[1], env)
    if isinstance(v, (str, int)) and not isinstance(v, bool):
        return str(v)
    raise Unk('fmt')


def a_fstr(I, t, env):
    out = ''
    for a in t.args[1:]:
        v = I.ev(a, env)
        if not isinstance(v, str):
            raise Unk('fstr')
        out += v
    return out


def a_str(I, t, env):
    v = I.ev(t.args[1], env)
    if isinstance(v, (str, int)) and not isinstance(v, bool):
        return str(v)
    raise Unk('str')


def a_strin(I, t, env):
    a, b = I.ev(t.args[1], env), I.ev(t.args[2], env)
    if isinstance(a, str) and isinstance(b, str):
        return a in b
    raise Unk('strin')


def a_strm(name):
    def f(I, t, env):
        a = [I.ev(x, env) for x in t.args[1:] if x.op != 'kw']
        if any(x.op == 'kw' for x in t.args[1:] if isinstance(x, T)):
            raise Unk('kw')
        if not isinstance(a[0], str):
            raise Unk('str')
        try:
            if name == 'join':
                its, o = elems(a[1])
                if not o:
                    raise Unk('order')
                return a[0].join(its)
            return getattr(a[0], name)(*a[1:])
        except (TypeError, IndexError, KeyError, ValueError) as e:
            raise PyErr(type(e).__name__)
    return f


def a_nan(I, t, env):
    return float('nan')


def a_atolist(I, t, env):
    v = I.ev(t.args[1], env)

    def tup(x):
        return tuple(tup(y) for y in x) if isinstance(x, list) else x
    if isinstance(v, np.ndarray):
        return tup(v.tolist())
    raise Unk('tolist')


def a_empty(I, t, env):
    s = I.ev(t.args[1], env)
    a = np.zeros(np_arg(s))
    a[...] = np.nan
    return a


def a_zeros(val):
    def f(I, t, env):
        s = I.ev(t.args[1], env)
        try:
            return np.full(np_arg(s), val, dtype=float)
        except ValueError:
            raise PyErr('ValueError')
    return f


class Draws:
    """Values of the draws of a generator: any value in the range of the
    distribution, also values close to its ends."""
    def __init__(self, seed):
        self.seed = seed
        self.other = seed
        self.rngs = set()

    def __call__(self, name, rng, site, *args, **kw):
        self.rngs.add(rng)
        s = zlib.crc32(repr((self.seed if rng.name == 'rng' else self.other,
                             name, rng, site)).encode())
        g = np.random.Generator(np.random.PCG64(s))

        def par(i, key, default):
            if len(args) > i:
                return np_arg(args[i])
            return np_arg(kw.get(key, default))
        sizes = {'uniform': 2, 'normal': 2, 'standard_normal': 0,
                 'random': 0, 'poisson': 1, 'integers': 2,
                 'standard_exponential': 0, 'exponential': 1, 'choice': 1,
                 'permutation': 1, 'beta': 2, 'gamma': 2, 'power': 1,
                 'random_sample': 0, 'triangular': 3}
        if name not in sizes or set(kw) - {'low', 'high', 'size', 'loc',
                                           'scale', 'lam', 'endpoint', 'a',
                                           'left', 'mode', 'right'}:
            raise Unk('random ' + name)
        size = par(sizes[name], 'size', None)
        if isinstance(size, list):
            size = tuple(size)

        def unit(shape):
            u = g.random(shape)
            k = self.seed % 4
            if k == 1:
                # close to the ends, but not within rounding
                u = np.where(u < 0.5, 2e-5 + u * 2e-4,
                             1 - 2e-5 - (1 - u) * 2e-4)
            elif k == 2:
                u = np.where(g.random(shape) < 0.3, 1 - 2e-5 - u * 1e-4, u)
            return u
        if name in ('choice', 'permutation'):
            a = par(0, 'a', None)
            if name == 'permutation':
                return _py(g.permutation(a))
            if len(args) > 2 or 'replace' in kw or 'p' in kw:
                raise Unk('random choice with options')
            r = g.choice(a, size)
            return _py(r if np.shape(r) else np.asarray(r)[()])
        if name in ('beta', 'gamma', 'power', 'triangular'):
            try:
                a = [par(0, 'a' if name == 'power' else 'left', None),
                     par(1, 'mode', None), par(2, 'right', None)]
                r = getattr(g, name)(*a[:sizes[name]], size)
            except (TypeError, ValueError):
                raise Unk('random ' + name)
            return _py(r if np.shape(r) else np.asarray(r)[()])
        if name in ('uniform', 'random', 'random_sample'):
            lo, hi = (par(0, 'low', 0.0), par(1, 'high', 1.0)) \
                if name == 'uniform' else (0.0, 1.0)
            lo, hi = np.asarray(lo), np.asarray(hi)
            if size is None:
                size = np.broadcast(lo, hi).shape
            r = lo + unit(size) * (hi - lo)
        elif name in ('standard_normal', 'normal'):
            r = g.standard_normal(size)
            if name == 'normal':
                r = par(0, 'loc', 0.0) + r * np.asarray(par(1, 'scale', 1.0))
        elif name == 'poisson':
            try:
                r = g.poisson(par(0, 'lam', 1.0), size)
            except ValueError:
                raise PyErr('ValueError')
        elif name == 'integers':
            lo, hi = par(0, 'low', 0), par(1, 'high', None)
            if hi is None:
                lo, hi = 0, lo
            r = g.integers(lo, hi, size)
        else:
            r = g.standard_exponential(size) * (
                par(0, 'scale', 1.0) if name == 'exponential' else 1.0)
        return _py(r if np.shape(r) else np.asarray(r)[()])


def a_draw(I, t, env):
    d = getattr(I.m, 'draws', None)
    if d is None:
        raise Unk('random value')
    I.free_random = True
    a = [I.ev(x, env) for x in t.args[1:] if x.op != 'kw']
    return d(*a, **{x.args[0]: I.ev(x.args[1], env) for x in t.args[1:]
                    if x.op == 'kw'})


def a_fraction(I, t, env):
    a = [I.ev(x, env) for x in t.args[1:]]
    if any(x is None or isinstance(x, (tuple, frozenset)) for x in a):
        raise PyErr('TypeError')
    if not all(isnum(x) for x in a):
        raise Unk('Fraction')
    if len(a) == 1 and isinstance(a[0], float):
        try:
            return Fraction(a[0])
        except (ValueError, OverflowError) as exc:
            raise PyErr(type(exc).__name__)
    if any(isinstance(x, float) for x in a):
        raise PyErr('TypeError')
    try:
        return Fraction(*[int(x) if isinstance(x, np.integer) else x
                          for x in a])
    except ZeroDivisionError:
        raise PyErr('ZeroDivisionError')
    except TypeError:
        raise PyErr('TypeError')


APPS = {
    'fractions.Fraction': a_fraction,
    'draw': a_draw, 'newrng': lambda I, t, env: Obj('rng%s' % t.args[1].args[
        1], 'rng'),
    'sumL': a_sumL, 'prodL': a_prodL, 'maxL': a_ext('max'),
    'minL': a_ext('min'), 'max2': a_ext2('max'), 'min2': a_ext2('min'),
    'unionL': a_unionL, 'interL': a_interL, 'interL1': a_interL1,
    'diffunion': a_diffunion, 'enumerate': a_enumerate, 'zip': a_zip,
    'combinations': a_comb, 'product': a_product, 'reversed': a_reversed,
    'sortedby': a_sortedby, 'minby': a_extby('min'),
    'maxby': a_extby('max'), 'anyof': a_anyof, 'popat': a_popat,
    'insertat': a_insertat, 'lremove': a_lremove,
    'sorted': a_sorted, 'lindex': a_lindex, 'lcount': a_lcount,
    'keys': a_keys, 'values': a_values, 'items': a_items, 'dictL': a_dictL,
    'abs': a_abs, 'int': a_int, 'float': a_float, 'round': a_round,
    'isinstance': a_isinstance, 'shape': a_shape, 'ndim': a_ndim,
    'size': a_sizeattr, 'transpose': a_transpose, 'tclosure': a_tclosure,
    'np.array': a_array, 'np.asarray': a_array,
    'bitor': a_bitop(lambda a, b: a | b),
    'bitand': a_bitop(lambda a, b: a & b),
    'bitxor': a_bitop(lambda a, b: a ^ b), 'invert': a_invert,
    'cmp_lt': a_cmp('lt'), 'cmp_le': a_cmp('le'), 'cmp_gt': a_cmp('gt'),
    'cmp_ge': a_cmp('ge'), 'cmp_eq': a_cmp('eq'), 'cmp_ne': a_cmp('ne'),
    'astype': a_astype, 'fmt': a_fmt, 'fstr': a_fstr,
    'str': a_str, 'strin': a_strin, 'nan': a_nan, 'atolist': a_atolist,
    'np.empty': a_empty, 'np.zeros': a_zeros(0.0), 'np.ones': a_zeros(1.0),
}
for _n in ('format', 'join', 'lower', 'upper', 'strip', 'startswith',
           'endswith', 'replace', 'split', 'capitalize', 'title', 'isdigit',
           'find', 'count', 'index', 'lstrip', 'rstrip'):
    APPS['str.' + _n] = a_strm(_n)
