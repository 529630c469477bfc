"""Abstract evaluator: turns a function body into value-graph terms.

Control-flow joins become gates (no path is enumerated), calls to repository
functions are inlined to a bounded depth, loops are replaced by closed binder
terms through the fold rules of `loops.py`; whatever has no rule becomes an
`opaque` term, on which no verdict is ever based.
"""
import ast
import itertools

from . import terms as t
from .terms import T, TRUE, FALSE, NONE, const, ite, and_, or_, not_
from .program import Func, Class, Module, own_nodes

MAXDEPTH = 14
_uid = itertools.count(1)


def opaque(why, sort='any'):
    return t.raw('opaque', '%s#%d' % (why, next(_uid)), sort=sort)


class Closure:
    def __init__(self, func, fid=None, self_t=None):
        self.func, self.fid, self.self_t = func, fid, self_t


class Virtual:
    """A method that the class of the receiver may override."""
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class BoundExt:
    """Method of a value of a builtin/external type."""
    def __init__(self, recv, name, node):
        self.recv, self.name, self.node = recv, name, node


class Ext:
    def __init__(self, name):
        self.name = name


class SuperV:
    def __init__(self, cls, self_t):
        self.cls, self.self_t = cls, self_t


_exts = {}


def ext(name):
    if name not in _exts:
        _exts[name] = Ext(name)
    return t.py(_exts[name], 'fn')


_pys = {}


def pyc(o):
    if id(o) not in _pys:
        _pys[id(o)] = (t.py(o, 'fn'), o)
    return _pys[id(o)][0]


class State:
    __slots__ = ('frames', 'heap', 'refs')

    def __init__(self):
        self.frames, self.heap, self.refs = {}, {}, {}

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.refs = dict(self.refs)
        return s

    def become(self, o):
        self.frames, self.heap, self.refs = o.frames, o.heap, o.refs


def join_states(c, a, b):
    """State that is a where c, else b."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    s = State()
    for fid in set(a.frames) | set(b.frames):
        fa, fb = a.frames.get(fid), b.frames.get(fid)
        if fa is None or fb is None:
            s.frames[fid] = dict(fa if fb is None else fb)
            continue
        out = {}
        for n in set(fa) | set(fb):
            va, vb = fa.get(n, t.UNBOUND), fb.get(n, t.UNBOUND)
            out[n] = va if va is vb else ite(c, va, vb)
        s.frames[fid] = out
    for f in set(a.heap) | set(b.heap):
        ma, mb = a.heap.get(f), b.heap.get(f)
        if ma is None or mb is None:
            # untouched on one side: its initial map
            base = initial_map(f, (ma or mb))
            ma, mb = ma or base, mb or base
        s.heap[f] = t.mapite(c, ma, mb)
    for r in set(a.refs) | set(b.refs):
        ra, rb = a.refs.get(r), b.refs.get(r)
        if ra is None or rb is None:
            s.refs[r] = ra if rb is None else rb
        else:
            s.refs[r] = ra if ra is rb else ite(c, ra, rb)
    return s


_field_sorts = {}


def initial_map(field, _like=None):
    return t.map0(field, 'bool' if field.startswith('has:')
                  else _field_sorts.get(field, 'any'))


class Exit:
    __slots__ = ('kind', 'cond', 'val', 'state', 'node')

    def __init__(self, kind, cond, val, state, node=None):
        self.kind, self.cond, self.val = kind, cond, val
        self.state, self.node = state, node


class Frame:
    def __init__(self, fid, func, module, cls, self_t=None, outer=None):
        self.fid, self.func, self.module, self.cls = fid, func, module, cls
        self.self_t = self_t
        self.outer = outer       # fid of enclosing function frame
        self.exits = []
        self.pc = TRUE
        self.yields = None
        self.locals = set()
        self.nonlocals = set()
        self.globals_ = set()


_mentions = {}
_has_ref = {}      # term -> is a reference among its alternatives?


_in_place = {}


def changed_in_place(node):
    """Names of variables whose containers the code changes in place."""
    r = _in_place.get(id(node))
    if r is None:
        from .builtins_ import MUTATORS
        names = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and isinstance(n.func.value, ast.Name) and \
                    n.func.attr in MUTATORS:
                names.add(n.func.value.id)
            elif isinstance(n, ast.AugAssign) and \
                    isinstance(n.target, ast.Name):
                names.add(n.target.id)
        r = _in_place[id(node)] = (node, names)
    return r[1]


def mentions_itself(func):
    """Does the text of the function contain a call of that name?"""
    r = _mentions.get(id(func.node))
    if r is None:
        name = getattr(func.node, 'name', None)
        r = (func.node, name is not None and any(
            isinstance(x, ast.Name) and x.id == name or
            isinstance(x, ast.Attribute) and x.attr == name
            for x in ast.walk(func.node)))
        _mentions[id(func.node)] = r
    return r[1]


class Recursive(Exception):
    def __init__(self, key):
        self.key = key


class Rec:
    failed = None
    used = False


class Result:
    def __init__(self, value, raises, state):
        self.value, self.raises, self.state = value, raises, state

    @property
    def outcome(self):
        """The value, or a `raise` term where an exception leaves the call."""
        v = self.value
        for e in self.raises:
            v = ite(e.cond, t.raw('raise', e.val, sort='any'), v)
        return v


EXC_PARENTS = {'KeyError': 'LookupError', 'IndexError': 'LookupError',
               'LookupError': 'Exception', 'ZeroDivisionError':
               'ArithmeticError', 'ArithmeticError': 'Exception',
               'UnboundLocalError': 'NameError', 'NameError': 'Exception',
               'NotImplementedError': 'RuntimeError',
               'RuntimeError': 'Exception', 'Exception': 'BaseException'}


def exc_matches(name, handler):
    while name:
        if name == handler:
            return True
        name = EXC_PARENTS.get(name, 'Exception' if name not in
                               ('Exception', 'BaseException') else
                               ('BaseException' if name == 'Exception'
                                else None))
    return False


class Evaluator:
    def __init__(self, prog, overrides=None, maxdepth=MAXDEPTH):
        self.prog = prog
        self.overrides = overrides or {}
        self.maxdepth = maxdepth
        self.stack = []
        self.loop_vars = []
        self.unbound_reads = set()
        self.rec, self.rec_known, self.rec_failed = {}, set(), set()
        self.sources = []
        self.optional = set()
        self.calls = []          # recorded calls: (qual, cond, args)
        self.record = set()
        self.inlined = set()
        self.opaque_reasons = []
        self.arg_mutations = []
        self._scan_fields()
        self.global_cache = {}
        self.modules, self.modfid = (), {}
        self.shared, self._shared = False, {}

    # ------------------------------------------------------------ fields
    def _scan_fields(self):
        prog = self.prog
        for f in prog.all_functions():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                        and n.func.id in ('hasattr', 'delattr') and \
                        len(n.args) >= 2 and \
                        isinstance(n.args[1], ast.Constant) and \
                        isinstance(n.args[1].value, str):
                    self.optional.add(n.args[1].value)
                if isinstance(n, ast.Delete):
                    for x in n.targets:
                        if isinstance(x, ast.Attribute):
                            self.optional.add(x.attr)
        for m in prog.modules.values():
            for c in m.classes.values():
                must = set()
                stored = set()
                for k in prog.mro(c):
                    init = k.methods.get('__init__')
                    if init:
                        must |= self._must_assign(init.node.body)
                    for f in list(k.methods.values()) + \
                            list(k.setters.values()):
                        for n in own_nodes(f.node):
                            if isinstance(n, ast.Attribute) and isinstance(
                                    n.ctx, ast.Store) and isinstance(
                                    n.value, ast.Name) and n.value.id == 'self':
                                stored.add(n.attr)
                if any(k.methods.get('__init__') for k in prog.mro(c)):
                    self.optional |= {a for a in stored - must
                                      if not a.startswith('__')}
                for s in c.node.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(
                            s.target, ast.Name):
                        _field_sorts[s.target.id] = \
                            self.ann_sort(s.annotation, m)
        self.optional -= {'Label', 'Position'}
        _field_sorts.setdefault('_lprec', 'set:event')
        _field_sorts.setdefault('_lsucc', 'set:event')

    def _must_assign(self, body):
        out = set()
        for s in body:
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                if isinstance(s, ast.AnnAssign) and s.value is None:
                    continue
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for x in ts:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Attribute) and isinstance(
                                y.value, ast.Name) and y.value.id == 'self':
                            out.add(y.attr)
            elif isinstance(s, ast.If):
                a, b = self._must_assign(s.body), self._must_assign(s.orelse)
                if s.body and isinstance(s.body[-1], ast.Raise):
                    out |= b
                elif s.orelse and isinstance(s.orelse[-1], ast.Raise):
                    out |= a
                else:
                    out |= a & b
            elif isinstance(s, ast.Try):
                hs = [self._must_assign(h.body) for h in s.handlers
                      if not (h.body and isinstance(h.body[-1], ast.Raise))]
                a = self._must_assign(s.body + s.orelse)
                for h in hs:
                    a = a & h
                out |= a | self._must_assign(s.finalbody)
            elif isinstance(s, ast.With):
                out |= self._must_assign(s.body)
        return out

    def ann_sort(self, a, m):
        if a is None:
            return 'any'
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                return self.ann_sort(ast.parse(a.value, mode='eval').body, m)
            except SyntaxError:
                return 'any'
        if isinstance(a, ast.Constant) and a.value is None:
            return 'none'
        if isinstance(a, ast.Name):
            n = a.id
            base = {'int': 'int', 'float': 'num', 'bool': 'bool',
                    'str': 'str', 'Any': 'any', 'dict': 'dict',
                    'list': 'list', 'set': 'set', 'CausetEvent': 'event'}
            if n in base:
                return base[n]
            if self.prog.has_cls(n):
                return 'obj:' + n
            return 'any'
        if isinstance(a, ast.Attribute):
            return 'array' if a.attr == 'ndarray' else 'any'
        if isinstance(a, ast.Subscript):
            h = a.value
            hn = h.id if isinstance(h, ast.Name) else \
                getattr(h, 'attr', '')
            sl = a.slice
            first = sl.elts[0] if isinstance(sl, ast.Tuple) and sl.elts else sl
            if hn == 'Optional':
                return self.ann_sort(first, m)
            if hn in ('Set', 'set', 'FrozenSet'):
                e = self.ann_sort(first, m)
                return 'set' if e == 'any' else 'set:' + e
            if hn in ('List', 'list', 'Sequence', 'Tuple', 'tuple'):
                e = self.ann_sort(first, m)
                return 'list' if e == 'any' else 'list:' + e
            if hn in ('Iterable', 'Iterator', 'Collection'):
                e = self.ann_sort(first, m)
                return 'set' if e == 'any' else 'set:' + e
            if hn in ('Dict', 'dict'):
                return 'dict'
        return 'any'

    # ------------------------------------------------------------- heap
    def hmap(self, st, field):
        if field not in st.heap:
            st.heap[field] = initial_map(field)
        return st.heap[field]

    def read_field(self, st, obj, field):
        return t.sel(self.hmap(st, field), obj, _field_sorts.get(field, 'any'))

    def has_field(self, st, obj, field):
        if field not in self.optional:
            return TRUE
        v = t.sel(self.hmap(st, 'has:' + field), obj, 'bool')
        return self._new_has(v)

    def _new_has(self, v):
        if v.op == 'sel' and v.args[0].op == 'map0' and \
                v.args[1].op == 'new':
            return FALSE
        if v.op == 'ite':
            return ite(v.args[0], self._new_has(v.args[1]),
                       self._new_has(v.args[2]))
        return v

    def set_slot(self, st, obj, field, val):
        """Content of a field that is set already."""
        st.heap[field] = t.store(self.hmap(st, field), obj, val)

    def write_field(self, st, obj, field, val):
        st.heap[field] = t.store(self.hmap(st, field), obj, val)
        if field in self.optional:
            st.heap['has:' + field] = t.store(
                self.hmap(st, 'has:' + field), obj, TRUE)

    # ----------------------------------------------------------- classes
    def class_of(self, v):
        s = v.sort
        if s == 'event':
            return self.prog.cls('CausetEvent')
        if s.startswith('obj:'):
            n = s[4:]
            if self.prog.has_cls(n):
                return self.prog.cls(n)
        return None

    def sort_of_class(self, c):
        return 'event' if c.name == 'CausetEvent' else 'obj:' + c.name

    def is_subclass(self, c, name):
        return any(k.name == name for k in self.prog.mro(c))

    # ----------------------------------------------------------- exits
    def raise_exit(self, fr, st, cond, exc, node=None):
        c = and_(fr.pc, cond)
        if c is FALSE:
            return
        fr.exits.append(Exit('raise', c, exc, st.copy(), node))
        fr.pc = and_(fr.pc, not_(cond))

    # ---------------------------------------------------------- truth
    def truth(self, v, st, fr=None, memo=None):
        v = self.deref(v, st)
        if v.op == 'const':
            return const(bool(t.cval(v)))
        if v.sort == 'bool':
            return v
        if v.op == 'ite':
            if memo is None:
                memo = {}
            r = memo.get(v)
            if r is None:
                r = memo[v] = ite(v.args[0],
                                  self.truth(v.args[1], st, fr, memo),
                                  self.truth(v.args[2], st, fr, memo))
            return r
        s = v.sort.split(':')[0]
        if s in ('set', 'list', 'iter'):
            if v.op in ('set', 'lst'):
                return const(bool(v.args))
            return t.exists(t.fresh_name(), v, TRUE)
        if s == 'none':
            return FALSE
        if s in ('int', 'num'):
            return not_(t.eq(v, const(0)))
        if s == 'event' or s == 'fn':
            return TRUE
        if s == 'obj':
            c = self.class_of(v)
            if c and fr is not None:
                for dn in ('__bool__', '__len__'):
                    m = self.prog.find_method(c, dn)
                    if m:
                        r = self.inline(m, [v], {}, st, fr)
                        return self.truth(r, st, fr)
            return TRUE
        return t.raw('truth', v, sort='bool')

    # ---------------------------------------------------------- refs
    def new_ref(self, st, content, kind):
        rid = next(_uid)
        st.refs[rid] = content
        return t.raw('ref', rid, kind, sort=content.sort
                     if content.sort != 'any' else kind)

    def deref(self, v, st):
        if v.op == 'ref':
            return self.deref(st.refs.get(v.args[0], opaque('ref')), st)
        if v.op == 'ite' and (self._has_ref(v)):
            return self._deref_ite(v, st, {})
        return v

    def _deref_ite(self, v, st, memo):
        if v.op == 'ref' or v.op != 'ite' or not self._has_ref(v):
            return self.deref(v, st)
        r = memo.get(v)
        if r is None:
            r = memo[v] = ite(v.args[0],
                              self._deref_ite(v.args[1], st, memo),
                              self._deref_ite(v.args[2], st, memo))
        return r

    def _has_ref(self, v):
        if v.op != 'ite':
            return v.op == 'ref'
        r = _has_ref.get(v)
        if r is None:
            r = _has_ref[v] = self._has_ref(v.args[1]) or \
                self._has_ref(v.args[2])
        return r

    def resolve(self, v, st, depth=0):
        """Replaces every reference inside a term by its content."""
        if depth > 8:
            return opaque('cyclic reference')
        m = {}
        for x in t.subterms(v):
            if x.op == 'ref':
                m[x] = self.resolve(st.refs.get(x.args[0], opaque('ref')),
                                    st, depth + 1)
        return t.replace(v, m) if m else v

    # ---------------------------------------------------------- names
    def lookup(self, name, fr, st, node=None):
        fid = fr.fid
        if name in fr.globals_:
            return self.global_value(name, fr.module, st, fr)
        f = fr
        env = st.frames.get(fid, {})
        if name in env:
            v = env[name]
            return self.check_bound(v, name, fr, st, node)
        if name in fr.locals and name not in fr.nonlocals:
            self.unbound_read(name, fr, TRUE)
            self.raise_exit(fr, st, TRUE, 'UnboundLocalError', node)
            return opaque('unbound ' + name)
        outer = fr.outer
        while outer is not None:
            env = st.frames.get(outer[0], {})
            if name in env:
                return self.check_bound(env[name], name, fr, st, node)
            outer = outer[1]
        return self.global_value(name, fr.module, st, fr)

    def check_bound(self, v, name, fr, st, node):
        if v is t.UNBOUND:
            self.unbound_read(name, fr, TRUE)
            self.raise_exit(fr, st, TRUE, 'UnboundLocalError', node)
            return opaque('unbound ' + name)
        if v.op == 'ite':
            c = self.unbound_cond(v)
            if c is not FALSE:
                self.unbound_read(name, fr, c)
                self.raise_exit(fr, st, c, 'UnboundLocalError', node)
                return self.strip_unbound(v)
        return v

    def unbound_read(self, name, fr, cond):
        """a local variable is read on a path that has not assigned it"""
        if and_(fr.pc, cond) is not FALSE:
            self.unbound_reads.add((fr.fid, name))

    def unbound_cond(self, v):
        if v is t.UNBOUND:
            return TRUE
        if v.op == 'ite':
            return ite(v.args[0], self.unbound_cond(v.args[1]),
                       self.unbound_cond(v.args[2]))
        return FALSE

    def strip_unbound(self, v):
        if v.op == 'ite':
            if v.args[1] is t.UNBOUND:
                return self.strip_unbound(v.args[2])
            if v.args[2] is t.UNBOUND:
                return self.strip_unbound(v.args[1])
            return ite(v.args[0], self.strip_unbound(v.args[1]),
                       self.strip_unbound(v.args[2]))
        return v

    def global_value(self, name, module, st, fr):
        r = self.prog.lookup_global(module, name)
        if r is None:
            return ext(name)
        if r[0] == 'class' or r[0] == 'func' or r[0] == 'module':
            return pyc(r[1])
        if r[0] == 'ext':
            return ext(r[1])
        key = (r[2].name, name)
        if key in self.overrides:
            return self.overrides[key]
        fid = self.modfid.get(r[2].name)
        if fid is not None and st is not None and \
                name in st.frames.get(fid, {}):
            return self.check_bound(st.frames[fid][name], name, fr, st, None)
        expr = r[1]
        if isinstance(expr, (ast.Constant, ast.UnaryOp, ast.BinOp)):
            g = Frame(-1, None, r[2], None)
            return self.E(expr, g, State())
        if isinstance(expr, (ast.Tuple, ast.List, ast.Set, ast.Dict)):
            if self._literal(expr):
                g = Frame(-1, None, r[2], None)
                s2 = State()
                return self.deref(self.E(expr, g, s2), s2)
        return t.sym('global:%s.%s' % key, 'dict' if isinstance(
            expr, ast.Dict) else 'any')

    def _literal(self, e):
        if isinstance(e, ast.Dict):
            return False
        return all(isinstance(n, (ast.Tuple, ast.List, ast.Set, ast.Constant,
                                  ast.Load, ast.UnaryOp, ast.USub))
                   for n in ast.walk(e))

    def import_modules(self, st):
        """Binds the module-level variables of `self.modules` to their initial
        values, as right after the import."""
        for i, name in enumerate(self.modules):
            m = self.prog.modules.get(name)
            if m is None:
                continue
            fid = self.modfid[name] = -10 - i
            if fid in st.frames:
                continue
            st.frames[fid] = {}
            fr = Frame(fid, None, m, None)
            for s in m.tree.body:
                if isinstance(s, ast.AnnAssign) and s.value is not None:
                    x, e = s.target, s.value
                elif isinstance(s, ast.Assign) and len(s.targets) == 1:
                    x, e = s.targets[0], s.value
                else:
                    continue
                if isinstance(x, ast.Name):
                    st.frames[fid][x.id] = self.E(e, fr, st)

    # ---------------------------------------------------------- calls
    def run(self, func, args=(), kwargs=None, st=None, self_t=None,
            kwsym=None):
        """Top level: evaluates func on the given terms."""
        st = st or State()
        fr = Frame(next(_uid), None, func.module, None)
        st.frames[fr.fid] = {}
        self.import_modules(st)
        self.share_defaults(st)
        v = self.inline(func, list(args), kwargs or {}, st, fr, kwsym=kwsym)
        raises = [Exit('raise', self.resolve(e.cond, e.state), e.val, e.state,
                       e.node)
                  for e in fr.exits if e.kind == 'raise']
        v = self.resolve(v, st)
        st.heap = {k: self.resolve(m, st) for k, m in st.heap.items()}
        return Result(v, raises, st)

    def call_closure(self, v, args, st):
        fr = Frame(next(_uid), None, list(self.prog.modules.values())[0],
                   None)
        st.frames[fr.fid] = {}
        r = self.call(v, list(args), {}, st, fr, None)
        raises = [e for e in fr.exits if e.kind == 'raise']
        return Result(self.resolve(r, st), raises, st)

    def inline(self, func, args, kwargs, st, fr, outer=None, kwsym=None,
               node=None):
        q = func.qual
        for key in (q, func.module.name + ':' + q):
            if key in self.overrides:
                return self.overrides[key](self, args, kwargs, st, fr)
        if q in self.record:
            self.calls.append((q, fr.pc, list(args), dict(kwargs),
                               tuple(self.loop_vars), node))
        key = id(func.node)
        if key in self.rec:
            return self.rec_call(func, args, kwargs, st, fr, outer, kwsym,
                                 node)
        if key in self.rec_known:
            return self.rec_summary(func, args, kwargs, st, fr, outer, kwsym,
                                    node)
        if key in self.stack and key not in self.rec_failed and \
                mentions_itself(func):
            raise Recursive(key)
        if key in self.stack or len(self.stack) > self.maxdepth:
            self.opaque_reasons.append('recursion/depth at ' + q)
            return opaque('call ' + q)
        self.inlined.add(q)
        if not mentions_itself(func):
            return self.inline_body(func, args, kwargs, st, fr, outer, kwsym,
                                    node)
        snap = (st.copy(), len(fr.exits), fr.pc, len(self.calls),
                len(self.arg_mutations), list(self.loop_vars),
                list(self.stack))
        try:
            return self.inline_body(func, args, kwargs, st, fr, outer, kwsym,
                                    node)
        except Recursive as r:
            if r.key != key:
                raise
            st.become(snap[0])
            del fr.exits[snap[1]:], self.calls[snap[3]:], \
                self.arg_mutations[snap[4]:]
            fr.pc = snap[2]
            self.loop_vars[:], self.stack[:] = snap[5], snap[6]
            self.rec_known.add(key)
            return self.rec_summary(func, args, kwargs, st, fr, outer, kwsym,
                                    node)

    # ---- recursion: the least solution of the equation of the function
    def rec_args(self, func, args, kwargs, st, fr, outer, kwsym, node):
        nf = Frame(next(_uid), func, func.module, func.cls, outer=outer)
        env = {}
        if func.node.args.vararg or func.node.args.kwarg or \
                not self.bind(func, args, kwargs, env, st, nf, kwsym):
            return None
        if func.cls is not None and not func.is_static and args:
            nf.self_t = args[0]
        self.scan_locals(func.node, nf)
        return nf, env

    def outer_frame(self, nf, name, st):
        outer = nf.outer
        while outer is not None:
            if name in st.frames.get(outer[0], {}):
                return outer[0]
            outer = outer[1]
        return None

    def rec_call(self, func, args, kwargs, st, fr, outer, kwsym, node):
        R = self.rec[id(func.node)]
        b = self.rec_args(func, args, kwargs, st, fr, outer, kwsym, node)
        if b is None:
            R.failed = 'arguments'
            return opaque('recursion')
        nf, env = b
        vals = [self.resolve(self.deref(env[p], st), st) for p in R.params]
        for k, fid in R.cells:
            vals.append(self.resolve(self.deref(st.frames[fid][k], st), st))
        for i, v in enumerate(vals):
            R.argsorts[i] = t.join_sort(R.argsorts[i], v.sort)
        # what the recursion reads from the heap must be the initial heap
        for k, v in st.heap.items():
            if v is not R.heap.get(k, v):
                R.failed = 'the heap changes before a recursive call'
        R.used = True
        call = t.raw('recall', R.var, *vals)
        for i, (k, fid) in enumerate(R.cells):
            st.frames[fid][k] = t.raw('recget', call, const(i + 1),
                                      sort=R.sorts[i + 1])
        if not self.rec_write(R, call, env, st):
            R.failed = 'a container changes in the recursion'
        v = t.raw('recget', call, const(0), sort=R.sorts[0])
        return self.new_ref(st, v, 'list') if func.is_generator else v

    def rec_write(self, R, call, env, st):
        """containers given as arguments that the recursion changes"""
        seen = set()
        for i, p in enumerate(R.inout):
            x = env[p]
            if x.op != 'ref' or x.args[0] not in st.refs or \
                    x.args[0] in seen:
                return False
            seen.add(x.args[0])
            k = 1 + len(R.cells) + i
            st.refs[x.args[0]] = t.raw('recget', call, const(k),
                                       sort=R.sorts[k])
        return True

    def rec_summary(self, func, args, kwargs, st, fr, outer, kwsym, node):
        key = id(func.node)
        b = self.rec_args(func, args, kwargs, st, fr, outer, kwsym, node)
        if b is None:
            self.opaque_reasons.append('recursion at ' + func.qual)
            return opaque('call ' + func.qual)
        nf0, env0 = b
        R = Rec()
        R.params = list(env0)
        R.cells = []
        for k in sorted(nf0.nonlocals):
            fid = self.outer_frame(nf0, k, st)
            if fid is None:
                R.failed = 'nonlocal ' + k
            else:
                R.cells.append((k, fid))
        vals = [self.resolve(self.deref(env0[p], st), st) for p in R.params]
        vals += [self.resolve(self.deref(st.frames[fid][k], st), st)
                 for k, fid in R.cells]
        R.argsorts = [v.sort for v in vals]
        R.sorts = ['list:bot' if func.is_generator else 'bot'] + \
            R.argsorts[len(R.params):]
        R.heap = {k: v for k, v in st.heap.items()}
        R.inout = []
        out = None
        for _ in range(6):
            asorts, rsorts = list(R.argsorts), list(R.sorts)
            R.var = t.bv(t.fresh_name('R'), 'fn')
            out = self.rec_body(func, R, st, fr, outer)
            if out == 'again':
                R.sorts = R.sorts[:1 + len(R.cells)] + [
                    R.argsorts[R.params.index(p)] for p in R.inout]
                continue
            if R.failed or out is None:
                break
            R.sorts = [t.join_sort(x, v.sort) if x != 'bot' else v.sort
                       for x, v in zip(rsorts, out[1])]
            if asorts == R.argsorts and rsorts == R.sorts:
                break
        else:
            R.failed = 'no sort'
        if out == 'again':
            R.failed = 'a container changes in the recursion'
        if R.failed or out is None:
            self.opaque_reasons.append('recursion at %s: %s' % (
                func.qual, R.failed))
            self.rec_failed.add(key)
            self.rec_known.discard(key)
            for k, fid in R.cells:
                st.frames[fid][k] = opaque('recursion')
            return opaque('call ' + func.qual)
        names, ends = out
        term = t.raw('rec', ','.join([R.var.args[0]] + names), *ends,
                     sort='fn')
        call = t.raw('recall', term, *vals)
        for i, (k, fid) in enumerate(R.cells):
            st.frames[fid][k] = t.raw('recget', call, const(i + 1),
                                      sort=R.sorts[i + 1])
        if not self.rec_write(R, call, env0, st):
            return opaque('call ' + func.qual)
        v = t.raw('recget', call, const(0), sort=R.sorts[0])
        return self.new_ref(st, v, 'list') if func.is_generator else v

    def rec_body(self, func, R, st, fr, outer):
        key = id(func.node)
        st2 = st.copy()
        nf = Frame(next(_uid), func, func.module, func.cls, outer=outer)
        self.scan_locals(func.node, nf)
        names, env, own = [], {}, {}
        for p, s in zip(R.params + [k for k, _ in R.cells], R.argsorts):
            v = t.bv(t.fresh_name('p'), s)
            names.append(v.args[0])
            if s.split(':')[0] in ('set', 'list', 'dict', 'array'):
                v = self.new_ref(st2, v, s)
                if len(names) <= len(R.params):
                    own[v.args[0]] = p
            if len(names) <= len(R.params):
                env[p] = v
            else:
                st2.frames[R.cells[len(names) - 1 - len(R.params)][1]][p] = v
        if func.cls is not None and not func.is_static and R.params:
            nf.self_t = env[R.params[0]]
        st2.frames[nf.fid] = env
        refs0 = dict(st2.refs)
        tf = Frame(next(_uid), None, func.module, None)
        st2.frames[tf.fid] = {}
        self.rec[key] = R
        self.stack.append(key)
        n0 = len(self.calls)
        try:
            if func.is_generator:
                nf.yields = self.new_ref(st2, t.lst(), 'list')
            self.block(func.node.body, nf, st2)
            if nf.pc is not FALSE:
                nf.exits.append(Exit('return', nf.pc, NONE, st2.copy()))
        finally:
            self.stack.pop()
            del self.rec[key]
            del self.calls[n0:]
        v = self.finish_call(nf, tf, st2, func)
        for k, m in st2.heap.items():
            if R.heap.get(k, m) is not m and self.resolve(m, st2) is not \
                    self.resolve(R.heap[k], st2):
                R.failed = 'the heap changes in the recursion'
            elif k not in R.heap and m.op != 'map0':
                R.failed = 'the heap changes in the recursion'
        again = False
        for r, x in refs0.items():
            if st2.refs.get(r) is not x:
                p = own.get(r)
                if p is None:
                    R.failed = 'a container changes in the recursion'
                elif p not in R.inout:
                    R.inout.append(p)
                    again = True
        if again and not R.failed:
            return 'again'
        v = self.resolve(self.deref(v, st2), st2)
        for e in tf.exits:
            if e.kind == 'raise':
                c = self.resolve(e.cond, e.state)
                v = ite(c, t.raw('raise', e.val, sort=v.sort), v)
        return names, [v] + [
            self.resolve(self.deref(st2.frames[fid][k], st2), st2)
            for k, fid in R.cells] + [
            self.resolve(st2.refs[r], st2) for p in R.inout
            for r, o in own.items() if o == p]

    def inline_body(self, func, args, kwargs, st, fr, outer, kwsym, node):
        nf = Frame(next(_uid), func, func.module, func.cls, outer=outer)
        env = {}
        q = func.qual
        if not self.bind(func, args, kwargs, env, st, nf, kwsym):
            self.raise_exit(fr, st, TRUE, 'TypeError', node)
            return opaque('bad call ' + q)
        if func.cls is not None and not func.is_static and args:
            nf.self_t = args[0]
        st.frames[nf.fid] = env
        self.scan_locals(func.node, nf)
        self.stack.append(id(func.node))
        try:
            if isinstance(func.node, ast.Lambda):
                v = self.E(func.node.body, nf, st)
                nf.exits.append(Exit('return', nf.pc, v, st.copy()))
                nf.pc = FALSE
            else:
                if func.is_generator:
                    nf.yields = self.new_ref(st, t.lst(), 'list')
                out = self.block(func.node.body, nf, st)
                if nf.pc is not FALSE:
                    nf.exits.append(Exit('return', nf.pc, NONE, st.copy()))
        finally:
            self.stack.pop()
        return self.finish_call(nf, fr, st, func)

    def finish_call(self, nf, fr, st, func):
        rets = [e for e in nf.exits if e.kind == 'return' and
                e.cond is not FALSE]
        raises = [e for e in nf.exits if e.kind == 'raise']
        keep = set(self._closure_frames(rets, nf.fid)) \
            if any(True for _ in [0]) else set()
        rc = FALSE
        for e in raises:
            fr.exits.append(Exit('raise', and_(fr.pc, e.cond), e.val,
                                 e.state, e.node))
            rc = or_(rc, e.cond)
        if rets:
            v, s = rets[-1].val, rets[-1].state
            for e in reversed(rets[:-1]):
                v = ite(e.cond, e.val, v)
                s = join_states(e.cond, e.state, s)
            if nf.yields is not None:
                v = nf.yields
            st.become(s)
        else:
            v = opaque('no return')
        if nf.fid not in keep:
            st.frames.pop(nf.fid, None)
        if raises:
            fr.pc = and_(fr.pc, not_(rc)) if rets else FALSE
        return v

    def _closure_frames(self, rets, fid):
        """Frames that closures escaping through the result still need."""
        for e in rets:
            todo = [e.val]
            for fr in e.state.frames.values():
                todo.extend(fr.values())
            todo.extend(e.state.refs.values())
            for v in todo:
                if v.op == 'const' or v.op == 'sym':
                    continue
                for x in t.subterms(v):
                    if x.op == 'py' and isinstance(x.args[0].o, Closure) and \
                            x.args[0].o.fid is not None and \
                            x.args[0].o.fid[0] == fid:
                        return [fid]
        return []

    def scan_locals(self, node, fr):
        if isinstance(node, ast.Lambda):
            return
        for n in own_nodes(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                              ast.Del)):
                fr.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                fr.locals.add(n.name)
            elif isinstance(n, ast.Nonlocal):
                fr.nonlocals.update(n.names)
            elif isinstance(n, ast.Global):
                fr.globals_.update(n.names)
        # comprehension targets are not function locals
        for n in own_nodes(node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                names = {y.id for g in n.generators
                         for y in ast.walk(g.target)
                         if isinstance(y, ast.Name)}
                direct = set()
                for m in own_nodes(node):
                    pass
                fr.locals -= {x for x in names
                              if not self._stored_outside(node, x)}

    def _stored_outside(self, fnode, name):
        comp_t = set()
        for n in own_nodes(fnode):
            if isinstance(n, ast.comprehension):
                for y in ast.walk(n.target):
                    comp_t.add(id(y))
        for n in own_nodes(fnode):
            if isinstance(n, ast.Name) and n.id == name and \
                    isinstance(n.ctx, ast.Store) and id(n) not in comp_t:
                return True
        return False

    def bind(self, func, args, kwargs, env, st, nf, kwsym=None):
        a = func.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        rest = []
        for i, v in enumerate(args):
            if isinstance(v, Star):
                if i < len(params) or not a.vararg:
                    return self._bind_star(func, args, kwargs, env, st, nf)
                rest.append(v)
            elif i < len(params):
                env[params[i]] = v
            else:
                rest.append(v)
        if rest:
            if not a.vararg:
                return False
        if a.vararg:
            if any(isinstance(x, Star) for x in rest):
                env[a.vararg.arg] = rest[0].t if len(rest) == 1 \
                    else opaque('star')
            else:
                env[a.vararg.arg] = t.lst(*rest)
        for k in list(kwargs):
            if k in params or k in [p.arg for p in a.kwonlyargs]:
                if k in env:
                    return False
                env[k] = kwargs.pop(k)
        star2 = kwargs.pop('**', None)
        if star2 is not None:
            star2 = self.deref(star2, st)
        if a.kwarg:
            d = kwsym if kwsym is not None else t.DEMPTY
            if star2 is not None:
                # parameters given through ** are not split off
                d = star2
            for k, v in kwargs.items():
                d = t.dstore(d, const(k), v)
            env[a.kwarg.arg] = self.new_ref(st, d, 'dict')
        elif kwargs:
            return False
        nd = len(a.defaults)
        for i, p in enumerate(params):
            if p not in env:
                j = i - (len(params) - nd)
                dv = None
                if star2 is not None:
                    k = const(p)
                    has = t.dhas(star2, k)
                    if j >= 0:
                        dv = self.default(a.defaults[j], nf, st)
                        env[p] = ite(has, t.dget(star2, k), dv)
                        continue
                    env[p] = t.dget(star2, k)
                    continue
                if j < 0:
                    return False
                env[p] = self.default(a.defaults[j], nf, st)
        for p, dn in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env:
                if dn is None:
                    return False
                env[p.arg] = self.default(dn, nf, st)
        return True

    def _bind_star(self, func, args, kwargs, env, st, nf):
        flat = []
        for v in args:
            if isinstance(v, Star):
                s = self.deref(v.t, st)
                if s.op != 'lst':
                    return False
                flat.extend(s.args)
            else:
                flat.append(v)
        return self.bind(func, flat, kwargs, env, st, nf)

    def share_defaults(self, st):
        """Containers made once at the definition of a function or class are
        objects that live as long as the program."""
        if not self.shared:
            return
        if not self._shared:
            todo = []
            for f in self.prog.all_functions():
                a = getattr(f.node, 'args', None)
                if a is not None:
                    todo += [(d, f.module) for d in a.defaults +
                             [k for k in a.kw_defaults if k is not None]]
            for m in self.prog.modules.values():
                for c in m.classes.values():
                    todo += [(d, m) for d in c.attrs.values()]
            for d, m in todo:
                if isinstance(d, (ast.List, ast.Dict, ast.Set)) or \
                        isinstance(d, ast.Call) and isinstance(
                            d.func, ast.Name) and d.func.id in (
                            'set', 'list', 'dict'):
                    s = State()
                    v = self.E(d, Frame(-1, None, m, None), s)
                    v = self.resolve(v, s)
                    self._shared[id(d)] = (v, self.new_ref(
                        s, v, v.sort.split(':')[0]))
        for v, r in self._shared.values():
            st.refs.setdefault(r.args[0], v)

    def default(self, node, nf, st):
        if id(node) in self._shared:
            return self._shared[id(node)][1]
        if isinstance(node, ast.Constant):
            return const(node.value)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) \
                and node.func.id == 'set' and not node.args:
            return t.EMPTY
        g = Frame(-1, None, nf.module, nf.cls)
        s = State()
        v = self.E(node, g, s)
        v = self.resolve(v, s)
        if v.op in ('lst', 'set', 'dict'):
            return v
        return v

    # --------------------------------------------------------- statements
    def block(self, stmts, fr, st):
        for s in stmts:
            if fr.pc is FALSE:
                return
            self.stmt(s, fr, st)

    def stmt(self, s, fr, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(type(s).__name__)
        m(s, fr, st)

    def s_Pass(self, s, fr, st):
        pass

    def s_Import(self, s, fr, st):
        for a in s.names:
            from .program import canon_ext
            st.frames[fr.fid][a.asname or a.name.split('.')[0]] = \
                ext(canon_ext(a.name if a.asname else a.name.split('.')[0]))

    def s_ImportFrom(self, s, fr, st):
        from .program import canon_ext
        for a in s.names:
            rm = self.prog.repo_module(s.module or '')
            v = None
            if rm is not None:
                r = self.prog.lookup_global(rm, a.name)
                if r and r[0] in ('class', 'func', 'module'):
                    v = pyc(r[1])
            st.frames[fr.fid][a.asname or a.name] = v or \
                ext(canon_ext((s.module or '') + '.' + a.name))

    def s_Global(self, s, fr, st):
        pass

    s_Nonlocal = s_Global

    def s_Assert(self, s, fr, st):
        c = self.truth(self.E(s.test, fr, st), st, fr)
        self.raise_exit(fr, st, not_(c), 'AssertionError', s)

    def s_Expr(self, s, fr, st):
        if isinstance(s.value, ast.Constant):
            return
        self.E(s.value, fr, st)

    def s_Return(self, s, fr, st):
        v = NONE if s.value is None else self.E(s.value, fr, st)
        fr.exits.append(Exit('return', fr.pc, v, st.copy(), s))
        fr.pc = FALSE

    def s_Raise(self, s, fr, st):
        exc = 'Exception'
        e = s.exc
        if e is None:
            exc = getattr(fr, 'current_exc', 'Exception')
        elif isinstance(e, ast.Call):
            exc = self._exc_name(e.func)
            for a in e.args:
                try:
                    self.E(a, fr, st)
                except Unsupported:
                    pass
        else:
            exc = self._exc_name(e)
        fr.exits.append(Exit('raise', fr.pc, exc, st.copy(), s))
        fr.pc = FALSE

    def _exc_name(self, n):
        if isinstance(n, ast.Name):
            return n.id
        if isinstance(n, ast.Attribute):
            return n.attr
        return 'Exception'

    def s_Break(self, s, fr, st):
        fr.exits.append(Exit('break', fr.pc, NONE, st.copy(), s))
        fr.pc = FALSE

    def s_Continue(self, s, fr, st):
        fr.exits.append(Exit('continue', fr.pc, NONE, st.copy(), s))
        fr.pc = FALSE

    def s_FunctionDef(self, s, fr, st):
        f = Func(s, fr.module, None, fr.func)
        cl = Closure(f, (fr.fid, fr.outer))
        st.frames[fr.fid][s.name] = pyc(cl)

    def s_If(self, s, fr, st):
        c = self.truth(self.E(s.test, fr, st), st, fr)
        self.branch(c, lambda f, x: self.block(s.body, f, x),
                    lambda f, x: self.block(s.orelse, f, x), fr, st)

    def branch(self, c, fa, fb, fr, st):
        if c is TRUE:
            fa(fr, st)
            return
        if c is FALSE:
            fb(fr, st)
            return
        pc = fr.pc
        sb = st.copy()
        fr.pc = and_(pc, c)
        if fr.pc is not FALSE:
            fa(fr, st)
        pa = fr.pc
        fr.pc = and_(pc, not_(c))
        if fr.pc is not FALSE:
            fb(fr, sb)
        pb = fr.pc
        if pa is FALSE:
            st.become(sb)
            fr.pc = pb
        elif pb is FALSE:
            fr.pc = pa
        else:
            st.become(join_states(c, st, sb))
            fr.pc = pc if (pa is and_(pc, c) and pb is and_(pc, not_(c))) \
                else or_(pa, pb)

    def s_Assign(self, s, fr, st):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and \
                isinstance(s.value, ast.Tuple) and \
                len(s.targets[0].elts) == len(s.value.elts):
            vals = [self.E(v, fr, st) for v in s.value.elts]
            for x, v in zip(s.targets[0].elts, vals):
                self.assign(x, v, fr, st)
            return
        v = self.E(s.value, fr, st)
        if self.aliased(s.targets, v, fr):
            v = self.share(v, st)
        for x in s.targets:
            self.assign(x, v, fr, st)

    def aliased(self, targets, v, fr):
        """Does the assignment create a second name for a container that may
        be changed in place?"""
        if v.op not in ('sel', 'ite') or \
                v.sort.split(':')[0] not in ('set', 'list', 'dict'):
            return False
        return any(isinstance(x, ast.Attribute) or isinstance(x, ast.Name) and
                   fr.func is not None and
                   x.id in changed_in_place(fr.func.node) for x in targets)

    def share(self, v, st, values=False):
        """Contents of fields (and values) become container objects, which
        the field refers to."""
        if v.op == 'ite':
            return ite(v.args[0], self.share(v.args[1], st, values),
                       self.share(v.args[2], st, values))
        f = self._field_of(v) if v.op == 'sel' else None
        if f is None or t.sel(self.hmap(st, f), v.args[1], v.sort) is not v:
            if values and v.op != 'ref' and v.sort.split(':')[0] in (
                    'set', 'list', 'dict', 'array'):
                return self.new_ref(st, v, v.sort.split(':')[0])
            return v
        r = self.new_ref(st, v, v.sort)
        self.set_slot(st, v.args[1], f, r)
        return r

    def s_AnnAssign(self, s, fr, st):
        if s.value is None:
            return
        v = self.E(s.value, fr, st)
        if v.sort == 'any' and v.op in ('sel', 'idx', 'dget', 'app',
                                        'bv', 'sym'):
            so = self.ann_sort(s.annotation, fr.module)
            if so in ('event', 'int', 'num', 'bool', 'str', 'array') or \
                    so.startswith('set') or so.startswith('list'):
                if v.op not in ('bv', 'sym'):
                    v = t.raw(v.op, *v.args, sort=so)
        if self.aliased([s.target], v, fr):
            v = self.share(v, st)
        self.assign(s.target, v, fr, st)

    def assign(self, x, v, fr, st):
        if isinstance(x, ast.Name):
            self.set_name(x.id, v, fr, st)
        elif isinstance(x, (ast.Tuple, ast.List)):
            d = self.deref(v, st)
            if any(isinstance(e, ast.Starred) for e in x.elts):
                for e in x.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e,
                                opaque('starred'), fr, st)
                return
            for i, e in enumerate(x.elts):
                self.assign(e, t.idx(d, const(i)), fr, st)
        elif isinstance(x, ast.Attribute):
            obj = self.E(x.value, fr, st)
            self.set_attr(obj, x.attr, v, fr, st, x)
        elif isinstance(x, ast.Subscript):
            self.set_item(x, v, fr, st)
        elif isinstance(x, ast.Starred):
            self.assign(x.value, opaque('starred'), fr, st)
        else:
            raise Unsupported('assign')

    def set_name(self, n, v, fr, st):
        if n in fr.globals_:
            fid = self.modfid.get(fr.module.name)
            if fid is not None:
                st.frames[fid][n] = v
                return
            st.heap['global:' + fr.module.name + '.' + n] = t.store(
                self.hmap(st, 'global:' + fr.module.name + '.' + n),
                NONE, v)
            return
        if n in fr.nonlocals:
            outer = fr.outer
            while outer is not None:
                env = st.frames.get(outer[0], {})
                if n in env:
                    env[n] = v
                    return
                outer = outer[1]
        st.frames[fr.fid][n] = v

    def set_attr(self, obj, attr, v, fr, st, node=None):
        c = self.class_of(obj)
        if c is not None:
            setter = self.prog.find_setter(c, attr)
            if setter is not None:
                self.inline(setter, [obj, v], {}, st, fr)
                return
        if obj.op == 'py':
            st.heap['static:' + attr] = t.store(
                self.hmap(st, 'static:' + attr), obj, v)
            return
        self.write_field(st, obj, attr, v)

    def set_item(self, x, v, fr, st):
        base = self.E(x.value, fr, st)
        key = self.slice_key(x.slice, fr, st)
        v = self.resolve(v, st) if v.op == 'ref' and \
            v.sort.split(':')[0] in ('int', 'num') else v
        cont = self.deref(base, st)
        if cont.sort == 'dict':
            new = t.dstore(cont, key, v)
        elif cont.op == 'lst' and key.op == 'const' and \
                isinstance(t.cval(key), int) and \
                -len(cont.args) <= t.cval(key) < len(cont.args):
            k = t.cval(key) % len(cont.args)
            new = t.lst(*[v if i == k else a
                          for i, a in enumerate(cont.args)])
        else:
            new = self.fill(cont, t.lst(t.lst(key, self.resolve(v, st))))
        self.write_back(x.value, base, new, fr, st)

    def fill(self, cont, entries):
        if cont.op == 'fillL':
            return t.raw('fillL', cont.args[0],
                         t.add(cont.args[1], entries), sort=cont.sort)
        return t.raw('fillL', cont, entries, sort=cont.sort)

    def write_back(self, node, base, new, fr, st):
        """Stores the new content of a container that was changed in place."""
        if base.op == 'ref':
            st.refs[base.args[0]] = new
        elif base.op == 'ite' and (self._has_ref(base) or
                                   self._has_field(base)):
            shared = self.share(base, st, True)
            if shared is not base:
                if isinstance(node, ast.Name):
                    self._rebind_name(node.id, shared, fr, st)
                elif isinstance(node, ast.Attribute):
                    self.set_slot(st, self.E(node.value, fr, st), node.attr,
                                  shared)
            self._write_ite(shared, new, TRUE, st)
        elif base.op == 'sel':
            f = self._field_of(base)
            if f is not None:
                # changed in place: the field stays set as it is
                self.set_slot(st, base.args[1], f, new)
                if isinstance(node, ast.Name):
                    self._rebind_name(node.id, new, fr, st)
            else:
                self._rebind(node, base, new, fr, st)
        elif isinstance(node, ast.Attribute):
            obj = self.E(node.value, fr, st)
            self.set_slot(st, obj, node.attr, new)
        else:
            self._rebind(node, base, new, fr, st)

    def _rebind(self, node, base, new, fr, st):
        self.arg_mutations.append((base, fr.pc, node))
        if isinstance(node, ast.Name):
            self._rebind_name(node.id, new, fr, st)
        elif isinstance(node, ast.Attribute):
            obj = self.E(node.value, fr, st)
            self.set_slot(st, obj, node.attr, new)
        elif isinstance(node, ast.Subscript):
            b2 = self.E(node.value, fr, st)
            key = self.slice_key(node.slice, fr, st)
            cont = self.deref(b2, st)
            if cont.sort == 'dict':
                self.write_back(node.value, b2, t.dstore(cont, key, new),
                                fr, st)
            else:
                self.write_back(node.value, b2, self.fill(
                    cont, t.lst(t.lst(key, new))), fr, st)

    def _rebind_name(self, name, new, fr, st):
        """Changes the content of a variable where it lives: a container of
        an enclosing function changed in place does not become local."""
        if name not in fr.locals and name not in st.frames.get(fr.fid, {}):
            outer = fr.outer
            while outer is not None:
                if name in st.frames.get(outer[0], {}):
                    st.frames[outer[0]][name] = new
                    return
                outer = outer[1]
            fid = self.modfid.get(fr.module.name)
            if fid is not None and name in st.frames.get(fid, {}):
                st.frames[fid][name] = new
                return
        self.set_name(name, new, fr, st)

    def _write_ite(self, base, new, c, st):
        if base.op == 'ite':
            self._write_ite(base.args[1], new, and_(c, base.args[0]), st)
            self._write_ite(base.args[2], new, and_(c, not_(base.args[0])),
                            st)
        elif base.op == 'ref':
            st.refs[base.args[0]] = ite(c, new, st.refs[base.args[0]])

    def _has_field(self, v):
        if v.op == 'ite':
            return self._has_field(v.args[1]) or self._has_field(v.args[2])
        return v.op == 'sel' and self._field_of(v) is not None

    def _field_of(self, selterm):
        m = selterm.args[0]
        while True:
            if m.op == 'map0':
                f = m.args[0]
                return f.split('@')[0]
            if m.op == 'store':
                m = m.args[0]
            elif m.op == 'mapite':
                m = m.args[1]
            else:
                return None

    def s_AugAssign(self, s, fr, st):
        x = s.target
        load = ast.copy_location(_as_load(x), x)
        cur = self.E(load, fr, st)
        rhs = self.E(s.value, fr, st)
        d = self.deref(cur, st)
        srt = d.sort.split(':')[0]
        if srt == 'set' or (srt == 'any' and self.deref(rhs, st).sort
                            .startswith('set') and
                            isinstance(s.op, (ast.BitOr, ast.BitAnd))):
            new = self.binop(s.op, d, self.deref(rhs, st), fr, st, s)
            self.write_back(x, cur, new, fr, st)
            return
        if srt == 'list' and isinstance(s.op, ast.Add):
            r = self.deref(rhs, st)
            new = t.add(d, r)
            if cur.op == 'ref':
                self.write_back(x, cur, new, fr, st)
            else:
                self.assign(x, new, fr, st)
            return
        if srt == 'array' and cur.op == 'ref' and not isinstance(
                x, ast.Subscript):
            new = self.binop(s.op, d, self.deref(rhs, st), fr, st, s)
            st.refs[cur.args[0]] = new
            return
        new = self.binop(s.op, cur, rhs, fr, st, s)
        self.assign(x, new, fr, st)

    def s_Delete(self, s, fr, st):
        for x in s.targets:
            if isinstance(x, ast.Name):
                st.frames[fr.fid][x.id] = t.UNBOUND
            elif isinstance(x, ast.Attribute):
                obj = self.E(x.value, fr, st)
                self.del_field(obj, x.attr, fr, st, s)
            elif isinstance(x, ast.Subscript):
                b = self.E(x.value, fr, st)
                k = self.slice_key(x.slice, fr, st)
                c = self.deref(b, st)
                if c.sort == 'dict':
                    self.raise_exit(fr, st, not_(t.dhas(c, k)), 'KeyError', s)
                    self.write_back(x.value, b, t.ddel(c, k), fr, st)
                else:
                    self.write_back(x.value, b, opaque('del item'), fr, st)

    def del_field(self, obj, f, fr, st, node):
        self.optional.add(f)
        has = self.has_field(st, obj, f)
        self.raise_exit(fr, st, not_(has), 'AttributeError', node)
        st.heap['has:' + f] = t.store(self.hmap(st, 'has:' + f), obj, FALSE)

    def s_With(self, s, fr, st):
        for i in s.items:
            v = self.E(i.context_expr, fr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, opaque('with'), fr, st)
        self.block(s.body, fr, st)

    def s_Try(self, s, fr, st):
        pc0 = fr.pc
        n0 = len(fr.exits)
        self.block(s.body, fr, st)
        if fr.pc is not FALSE and s.orelse:
            self.block(s.orelse, fr, st)
        new = fr.exits[n0:]
        del fr.exits[n0:]
        keep = []
        todo = list(new)
        for h in s.handlers:
            names = self._handler_names(h)
            caught, rest = [], []
            for e in todo:
                if e.kind == 'raise' and (names is None or any(
                        exc_matches(e.val, n) for n in names)):
                    caught.append(e)
                else:
                    rest.append(e)
            todo = rest
            if not caught:
                continue
            hs = caught[-1].state.copy()
            hc = caught[-1].cond
            for e in reversed(caught[:-1]):
                hs = join_states(e.cond, e.state, hs)
                hc = or_(hc, e.cond)
            main_pc, main_st = fr.pc, st.copy()
            fr.pc = hc
            if h.name:
                hs.frames[fr.fid][h.name] = opaque('exception')
            old_exc = getattr(fr, 'current_exc', None)
            fr.current_exc = caught[0].val
            hst = hs
            self.block(h.body, fr, hst)
            fr.current_exc = old_exc
            if fr.pc is FALSE:
                fr.pc = main_pc
                st.become(main_st)
            elif main_pc is FALSE:
                st.become(hst)
            else:
                st.become(join_states(hc, hst, main_st))
                fr.pc = self._merge_pc(pc0, main_pc, fr.pc, hc)
        # exits of the body that were not caught stay
        fr.exits[n0:n0] = todo
        if s.finalbody:
            self.block(s.finalbody, fr, st)

    def _merge_pc(self, pc0, a, b, hc):
        if b is hc and a is and_(pc0, not_(hc)):
            return pc0
        return or_(a, b)

    def _handler_names(self, h):
        if h.type is None:
            return None
        if isinstance(h.type, ast.Tuple):
            return [self._exc_name(x) for x in h.type.elts]
        return [self._exc_name(h.type)]

    def s_For(self, s, fr, st):
        from .loops import for_loop
        self.share_fields(s, fr, st)
        for_loop(self, s, fr, st)

    def s_While(self, s, fr, st):
        from .loops import while_loop
        self.share_fields(s, fr, st)
        while_loop(self, s, fr, st)

    def share_fields(self, s, fr, st):
        """A local variable that names the container of a field and that the
        loop changes in place: both refer to one container object."""
        names = changed_in_place(s)
        env = st.frames.get(fr.fid, {})
        for name in sorted(names):
            v = env.get(name)
            if not isinstance(v, T) or v.op != 'sel' or \
                    v.sort.split(':')[0] not in ('set', 'list', 'dict'):
                continue
            env[name] = self.share(v, st)

    # --------------------------------------------------------- expressions
    def E(self, n, fr, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(type(n).__name__)
        return m(n, fr, st)

    def D(self, n, fr, st):
        return self.deref(self.E(n, fr, st), st)

    def e_Constant(self, n, fr, st):
        return const(n.value)

    def e_Name(self, n, fr, st):
        return self.lookup(n.id, fr, st, n)

    def e_NamedExpr(self, n, fr, st):
        v = self.E(n.value, fr, st)
        self.assign(n.target, v, fr, st)
        return v

    def e_Tuple(self, n, fr, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self._starred_list(n.elts, fr, st)
        return t.lst(*[self.E(e, fr, st) for e in n.elts])

    def _starred_list(self, elts, fr, st):
        out = t.lst()
        for e in elts:
            if isinstance(e, ast.Starred):
                out = t.add(out, self.to_list(self.E(e.value, fr, st), fr, st))
            else:
                out = t.add(out, t.lst(self.E(e, fr, st)))
        return out

    def e_List(self, n, fr, st):
        return self.new_ref(st, self.e_Tuple(n, fr, st), 'list')

    def e_Set(self, n, fr, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            out = t.EMPTY
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    out = t.union(out, self.to_set(
                        self.E(e.value, fr, st), fr, st))
                else:
                    out = t.union(out, t.sset(self.E(e, fr, st)))
            return self.new_ref(st, out, 'set')
        return self.new_ref(st, t.sset(*[self.E(e, fr, st)
                                         for e in n.elts]), 'set')

    def e_Dict(self, n, fr, st):
        d = t.DEMPTY
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = t.dupd(d, self.D(v, fr, st))
            else:
                kk = self.E(k, fr, st)
                d = t.dstore(d, kk, self.E(v, fr, st))
        return self.new_ref(st, d, 'dict')

    def e_JoinedStr(self, n, fr, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.D(v.value, fr, st)
                parts.append(t.app('fmt', x, const(v.conversion), sort='str'))
        return t.app('fstr', *parts, sort='str')

    def e_Lambda(self, n, fr, st):
        f = Func(n, fr.module, None, fr.func)
        return pyc(Closure(f, (fr.fid, fr.outer)))

    def e_IfExp(self, n, fr, st):
        c = self.truth(self.E(n.test, fr, st), st, fr)
        out = {}

        def fa(f, s):
            out['a'] = self.E(n.body, f, s)

        def fb(f, s):
            out['b'] = self.E(n.orelse, f, s)
        self.branch(c, fa, fb, fr, st)
        if 'a' not in out:
            return out.get('b', opaque('dead'))
        if 'b' not in out:
            return out['a']
        return ite(c, out['a'], out['b'])

    def e_BoolOp(self, n, fr, st):
        isand = isinstance(n.op, ast.And)
        v = self.E(n.values[0], fr, st)
        for x in n.values[1:]:
            tv = self.truth(v, st, fr)
            if tv is TRUE:
                if not isand:
                    return v
                v = self.E(x, fr, st)
                continue
            if tv is FALSE:
                if isand:
                    return v
                v = self.E(x, fr, st)
                continue
            out = {}

            def go(f, s, x=x):
                out['v'] = self.E(x, f, s)
                out['t'] = self.truth(out['v'], s, f)

            def nop(f, s):
                pass
            self.branch(tv, go if isand else nop, nop if isand else go,
                        fr, st)
            if 'v' not in out:
                return v
            w = out['v']
            if v.sort == 'bool' and w.sort == 'bool':
                v = and_(tv, w) if isand else or_(tv, w)
            elif isand:
                v = ite(tv, w, v)
            else:
                v = ite(tv, v, w)
        return v

    def e_UnaryOp(self, n, fr, st):
        v = self.D(n.operand, fr, st)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v, st, fr))
        if isinstance(n.op, ast.USub):
            return t.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        return t.app('invert', v, sort=v.sort)

    def e_BinOp(self, n, fr, st):
        a = self.D(n.left, fr, st)
        b = self.D(n.right, fr, st)
        r = self.binop(n.op, a, b, fr, st, n)
        if r.op in ('sel', 'ite') and r.sort.startswith('set'):
            # a new object, also where it is equal to an operand
            return self.new_ref(st, r, 'set')
        return r

    OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div',
           ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow'}
    DUNDER = {ast.Sub: 'sub', ast.BitOr: 'or', ast.BitAnd: 'and',
              ast.BitXor: 'xor', ast.Add: 'add'}

    def binop(self, op, a, b, fr, st, node):
        a, b = self.deref(a, st), self.deref(b, st)
        d = self.DUNDER.get(type(op))
        if d:
            for x, y, pre in ((a, b, '__'), (b, a, '__r')):
                c = self.class_of(x)
                if c is not None:
                    m = self.prog.find_method(c, pre + d + '__')
                    if m:
                        return self.inline(m, [x, y], {}, st, fr, node=node)
        if a.op == 'ite' and a.sort in ('fn',):
            return opaque('binop')
        isset = a.sort.startswith('set') or b.sort.startswith('set')
        if isinstance(op, ast.BitOr):
            if a.sort == 'bool' and b.sort == 'bool':
                return or_(a, b)
            if a.sort == 'dict':
                return t.dupd(a, b)
            return t.union(a, b) if isset else t.app('bitor', a, b,
                                                     sort=a.sort)
        if isinstance(op, ast.BitAnd):
            if a.sort == 'bool' and b.sort == 'bool':
                return and_(a, b)
            return t.inter(a, b) if isset else t.app('bitand', a, b,
                                                     sort=a.sort)
        if isinstance(op, ast.BitXor):
            return t.symdiff(a, b) if isset else t.app('bitxor', a, b,
                                                       sort=a.sort)
        if isinstance(op, ast.Sub) and isset:
            return t.diff(a, b)
        k = self.OPS.get(type(op))
        if k is None:
            n = type(op).__name__
            return t.app('np.matmul' if n == 'MatMult' else 'bin' + n, a, b,
                         sort='array' if n == 'MatMult' else 'any')
        if k == 'mul' and (a.op == 'lst' or b.op == 'lst'):
            l, m = (a, b) if a.op == 'lst' else (b, a)
            if m.op == 'const' and isinstance(t.cval(m), int):
                return t.lst(*(l.args * t.cval(m)))
            return t.raw('rep', l, m, sort=l.sort)
        if k == 'mod' and a.sort == 'str':
            return t.app('strmod', a, b, sort='str')
        return t.arith(k, a, b)

    def e_Compare(self, n, fr, st):
        left = self.D(n.left, fr, st)
        out = TRUE
        for op, r in zip(n.ops, n.comparators):
            right = self.D(r, fr, st)
            c = self.compare(op, left, right, fr, st, n)
            if len(n.ops) == 1:
                return c
            out = and_(out, c)
            left = right
        return out

    CMPD = {ast.Lt: ('__lt__', '__gt__'), ast.LtE: ('__le__', '__ge__'),
            ast.Gt: ('__gt__', '__lt__'), ast.GtE: ('__ge__', '__le__'),
            ast.Eq: ('__eq__', '__eq__'), ast.NotEq: ('__ne__', '__ne__')}

    def compare(self, op, a, b, fr, st, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = t.is_(a, b)
            return c if isinstance(op, ast.Is) else not_(c)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(a, b, fr, st, node)
            return c if isinstance(op, ast.In) else not_(c)
        names = self.CMPD[type(op)]
        for x, y, nm in ((a, b, names[0]), (b, a, names[1])):
            c = self.class_of(x)
            if c is not None:
                m = self.prog.find_method(c, nm)
                if m:
                    r = self.inline(m, [x, y], {}, st, fr, node=node)
                    return r
                if nm == '__ne__':
                    m = self.prog.find_method(c, '__eq__')
                    if m:
                        r = self.inline(m, [x, y], {}, st, fr, node=node)
                        return not_(self.truth(r, st, fr))
        if isinstance(op, ast.Eq) or isinstance(op, ast.NotEq):
            if a.sort == 'event' or b.sort == 'event' or \
                    a.sort.startswith('obj:'):
                c = t.is_(a, b)
            elif 'array' in (a.sort, b.sort) and \
                    {a.sort, b.sort} <= {'array', 'int', 'num', 'any'}:
                return t.app('cmp_eq' if isinstance(op, ast.Eq) else
                             'cmp_ne', a, b, sort='any')
            else:
                c = t.eq(a, b)
            return c if isinstance(op, ast.Eq) else not_(c)
        if a.sort == 'array' or b.sort == 'array':
            nm = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt',
                  ast.GtE: 'ge'}[type(op)]
            return t.app('cmp_' + nm, a, b, sort='any')
        if isinstance(op, ast.Lt):
            return t.cmp_('lt', a, b)
        if isinstance(op, ast.LtE):
            return t.cmp_('le', a, b)
        if isinstance(op, ast.Gt):
            return t.cmp_('lt', b, a)
        return t.cmp_('le', b, a)

    def contains(self, x, s, fr, st, node):
        s = self.deref(s, st)
        c = self.class_of(s)
        if c is not None:
            m = self.prog.find_method(c, '__contains__')
            if m:
                r = self.inline(m, [s, x], {}, st, fr, node=node)
                return self.truth(r, st, fr)
            m = self.prog.find_method(c, '__iter__')
            if m:
                return t.mem(x, self.inline(m, [s], {}, st, fr))
        if s.sort == 'dict':
            return t.dhas(s, x)
        if s.op == 'const' and x.op == 'const' and s.sort == 'str':
            return const(t.cval(x) in t.cval(s))
        if s.sort == 'str' or (s.op == 'ite' and s.sort == 'str'):
            if s.op == 'ite':
                return ite(s.args[0],
                           self.contains(x, s.args[1], fr, st, node),
                           self.contains(x, s.args[2], fr, st, node))
            return t.app('strin', x, s, sort='bool')
        return t.mem(x, s)

    # ---- attributes
    def e_Attribute(self, n, fr, st):
        v = self.E(n.value, fr, st)
        r = self.attr(v, n.attr, fr, st, n)
        if r.op == 'py' and isinstance(r.args[0].o, BoundExt) and \
                self.deref(v, st).sort in ('any', 'event', 'num', 'int') or \
                r.op == 'py' and isinstance(r.args[0].o, BoundExt) and \
                v.sort.startswith('obj:'):
            # an attribute of an object that is not known
            return t.raw('attr', self.deref(v, st), n.attr)
        return r

    def attr(self, v, name, fr, st, node):
        v = self.deref(v, st) if v.op == 'ref' and not v.sort.split(':')[0] \
            in ('set', 'list', 'dict', 'array') else v
        if v.op == 'ite' and (v.sort in ('fn', 'any') or
                              v.sort.startswith('obj')) and \
                self.class_of(v) is None:
            return ite(v.args[0], self.attr(v.args[1], name, fr, st, node),
                       self.attr(v.args[2], name, fr, st, node))
        if v.op == 'py':
            o = v.args[0].o
            if isinstance(o, Module):
                return self.global_value(name, o, st, fr)
            if isinstance(o, Ext):
                return self.ext_attr(o.name + '.' + name)
            if isinstance(o, Class):
                m = self.prog.find_method(o, name)
                if m is not None:
                    if m.is_class:
                        return pyc(Closure(m, None, v))
                    return pyc(m) if not m.is_property else pyc(m)
                if name == '__name__':
                    return const(o.name)
                a = self.prog.find_attr(o, name)
                if a is not None:
                    return self.class_value(a)
                return opaque('class attr ' + name)
            if isinstance(o, SuperV):
                m = self.prog.find_method(o.cls[0], name, after=o.cls[1])
                if m is None:
                    return ext('object.' + name)
                if m.is_property:
                    return self.inline(m, [o.self_t], {}, st, fr, node=node)
                if m.is_static:
                    return pyc(m)
                return pyc(Closure(m, None, o.self_t))
            return t.raw('attr', v, name)
        c = self.class_of(v)
        if c is not None:
            m = self.prog.find_method(c, name)
            if m is not None:
                if v.op not in ('sym', 'new') and not m.is_static and \
                        self.prog.overridden(c, name):
                    # the class of the object is not known exactly
                    if m.is_property:
                        return t.app('virt:' + name, v)
                    return pyc(Virtual(v, name))
                if m.is_property:
                    return self.inline(m, [v], {}, st, fr, node=node)
                if m.is_static:
                    return pyc(m)
                if m.is_class:
                    return pyc(Closure(m, None, pyc(c)))
                return pyc(Closure(m, None, v))
            if name == '__class__':
                return pyc(c)
            if name == '__dict__':
                return opaque('__dict__')
            a = self.prog.find_attr(c, name)
            if a is not None:
                if name not in self.heap_fields():
                    return self.class_value(a)
                return self.instance_or_class(
                    self.read_field(st, v, name), a, {})
            return self.get_field(v, name, fr, st, node)
        if name in ('shape', 'ndim', 'size', 'T', 'dtype') and \
                not v.sort.startswith(('set', 'dict')):
            return self.array_attr(self.deref(v, st), name)
        if v.sort == 'any' and v.op != 'py':
            from .builtins_ import BUILTIN_ATTRS
            d = self.prog.definers(name)
            if len(d) == 1 and d[0].is_property and \
                    name not in BUILTIN_ATTRS:
                return self.inline(d[0], [v], {}, st, fr, node=node)
            if not d and name in self.heap_fields() and \
                    name.startswith('_'):
                return self.get_field(v, name, fr, st, node)
        return pyc(BoundExt(v, name, node.value if isinstance(
            node, ast.Attribute) else None))

    def class_value(self, a):
        if id(a[0]) in self._shared:
            return self._shared[id(a[0])][1]
        return self.E(a[0], Frame(-1, None, a[1].module, None), State())

    def instance_or_class(self, v, a, memo):
        """The attribute of a new object that has not been set is that of the
        class."""
        if v.op == 'sel' and v.args[0].op == 'map0' and \
                v.args[1].op == 'new':
            return self.class_value(a)
        if v.op == 'ite':
            if v.id not in memo:
                memo[v.id] = ite(v.args[0],
                                 self.instance_or_class(v.args[1], a, memo),
                                 self.instance_or_class(v.args[2], a, memo))
            return memo[v.id]
        return v

    def heap_fields(self):
        if not hasattr(self, '_hf'):
            self._hf = set()
            for f in self.prog.all_functions():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Store):
                        self._hf.add(n.attr)
        return self._hf

    def array_attr(self, v, name):
        if name in ('shape', 'ndim', 'size') and v.op == 'app' and \
                v.args[0] == 'astype':
            return self.array_attr(v.args[1], name)
        if name == 'shape':
            if v.op == 'app' and v.args[0] in ('np.zeros', 'np.empty',
                                               'np.ones'):
                return v.args[1]
            return t.app('shape', v, sort='list:int')
        if name == 'T':
            return t.app('transpose', v, sort='array')
        return t.app(name, v, sort='int' if name in ('ndim', 'size')
                     else 'any')

    def get_field(self, v, name, fr, st, node):
        if name in self.optional:
            has = self.has_field(st, v, name)
            self.raise_exit(fr, st, not_(has), 'AttributeError', node)
        return self.read_field(st, v, name)

    NPCONST = {'math.pi': 3.141592653589793, 'np.pi': 3.141592653589793,
               'math.inf': float('inf'), 'np.inf': float('inf'),
               'np.PINF': float('inf'), 'np.NINF': float('-inf'),
               'math.e': 2.718281828459045,
               'np.euler_gamma': 0.5772156649015329}

    def ext_attr(self, name):
        if name in self.NPCONST:
            return const(self.NPCONST[name])
        if name in ('np.nan', 'math.nan'):
            return t.app('nan', sort='num')
        if name in ('np.newaxis',):
            return NONE
        return ext(name)

    def slice_key(self, n, fr, st):
        if isinstance(n, ast.Slice):
            f = [NONE if x is None else self.D(x, fr, st)
                 for x in (n.lower, n.upper, n.step)]
            return t.raw('slice', *f, sort='slice')
        if isinstance(n, ast.Tuple):
            return t.lst(*[self.slice_key(x, fr, st) for x in n.elts])
        k = self.E(n, fr, st)
        d = self.deref(k, st)
        if k.op == 'ref' and d.sort.startswith('list'):
            # a list (not a tuple) of indices
            return t.app('np.asarray', d, sort='array')
        return d

    def e_Subscript(self, n, fr, st):
        v = self.D(n.value, fr, st)
        k = self.slice_key(n.slice, fr, st)
        return self.getitem(v, k, fr, st, n)

    def ite_items(self, v, k, fr, st, node):
        # each branch may raise under its own condition only
        pc, c = fr.pc, v.args[0]
        fr.pc = pa = and_(pc, c)
        a = self.getitem(v.args[1], k, fr, st, node)
        ra, fr.pc = fr.pc, and_(pc, not_(c))
        pb = fr.pc
        b = self.getitem(v.args[2], k, fr, st, node)
        fr.pc = pc if ra is pa and fr.pc is pb else or_(ra, fr.pc)
        return ite(c, a, b)

    def getitem(self, v, k, fr, st, node):
        if v.op == 'ite' and v.sort == 'dict':
            return self.ite_items(v, k, fr, st, node)
        if v.sort == 'dict':
            has = t.dhas(v, k)
            self.raise_exit(fr, st, not_(has), 'KeyError', node)
            return t.dget(v, k)
        if v.op == 'ite' and v.sort == 'any':
            return self.ite_items(v, k, fr, st, node)
        if v.op == 'sym' and v.args[0].startswith('global:'):
            self.raise_exit(fr, st, not_(t.raw('dhas', v, k, sort='bool')),
                            'KeyError', node)
            return t.raw('dget', v, k)
        if v.sort == 'any' and v.op in ('dget', 'sel', 'idx', 'sym') and \
                k.op == 'const' and isinstance(t.cval(k), str):
            # only dictionaries have text keys
            self.raise_exit(fr, st, not_(t.raw('dhas', v, k, sort='bool')),
                            'KeyError', node)
            return t.raw('dget', v, k)
        if k.op == 'slice' or (k.op == 'lst'):
            if v.op == 'lst' and k.op == 'slice' and all(
                    x.op == 'const' for x in k.args):
                a = [t.cval(x) for x in k.args]
                return t.lst(*v.args[slice(*a)])
            s = v.sort if k.op == 'slice' else 'any'
            if k.op == 'lst' and v.sort == 'array' and not any(
                    x.op == 'slice' or x is NONE for x in k.args):
                s = 'num'
            elif v.sort == 'array':
                s = 'array'
            return t.raw('item', v, k, sort=s)
        if v.op == 'lmap' and v.args[1].op == 'range' and \
                v.args[1].args[0] is const(0) and v.args[2] is TRUE:
            pass
        if k.sort == 'array' or k.sort.startswith('list'):
            return t.raw('item', v, k, sort='array' if v.sort == 'any'
                         else v.sort)
        return t.idx(v, k)

    def e_Starred(self, n, fr, st):
        return Star(self.E(n.value, fr, st))

    # ---- comprehensions
    def e_ListComp(self, n, fr, st):
        from .loops import comprehension
        return self.new_ref(st, comprehension(self, n, 'list', fr, st),
                            'list')

    def e_GeneratorExp(self, n, fr, st):
        from .loops import comprehension
        return comprehension(self, n, 'list', fr, st)

    def e_SetComp(self, n, fr, st):
        from .loops import comprehension
        return self.new_ref(st, comprehension(self, n, 'set', fr, st), 'set')

    def e_DictComp(self, n, fr, st):
        from .loops import comprehension
        return self.new_ref(st, comprehension(self, n, 'dict', fr, st),
                            'dict')

    def e_Yield(self, n, fr, st):
        v = NONE if n.value is None else self.E(n.value, fr, st)
        r = fr.yields
        st.refs[r.args[0]] = t.add(st.refs[r.args[0]],
                                   t.lst(self.resolve(v, st)))
        return NONE

    def e_YieldFrom(self, n, fr, st):
        v = self.D(n.value, fr, st)
        r = fr.yields
        st.refs[r.args[0]] = t.add(st.refs[r.args[0]], v)
        return NONE

    # ---- calls
    def e_Call(self, n, fr, st):
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and \
                self.prog.lookup_global(fr.module, 'super') is None:
            return self.make_super(n, fr, st)
        if isinstance(f, ast.Attribute):
            callee = self.attr(self.E(f.value, fr, st), f.attr, fr, st, f)
        else:
            callee = self.E(f, fr, st)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.append(Star(self.E(a.value, fr, st)))
            else:
                args.append(self.E(a, fr, st))
        for k in n.keywords:
            v = self.E(k.value, fr, st)
            if k.arg is None:
                v = self.deref(v, st)
                if v.op in ('dstore', 'dict') and self._const_dict(v):
                    for kk, vv in self._const_dict(v).items():
                        kwargs.setdefault(kk, vv)
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        return self.call(callee, args, kwargs, st, fr, n)

    def _const_dict(self, d):
        out = {}
        while d.op == 'dstore':
            if d.args[1].op != 'const':
                return None
            out.setdefault(t.cval(d.args[1]), d.args[2])
            d = d.args[0]
        return out if d.op == 'dict' else None

    def make_super(self, n, fr, st):
        f = fr
        cls = f.cls
        self_t = f.self_t
        if cls is None or self_t is None:
            return opaque('super')
        c = self.class_of(self_t) or cls
        if cls not in self.prog.mro(c):
            c = cls
        return pyc(SuperV((c, cls), self_t))

    def call(self, callee, args, kwargs, st, fr, node):
        if callee.op == 'ite':
            c = callee.args[0]
            out = {}

            def fa(f, s):
                out['a'] = self.call(callee.args[1], args, kwargs, s, f, node)

            def fb(f, s):
                out['b'] = self.call(callee.args[2], args, kwargs, s, f, node)
            self.branch(c, fa, fb, fr, st)
            if 'a' in out and 'b' in out:
                return ite(c, out['a'], out['b'])
            return out.get('a') or out.get('b') or opaque('dead')
        if callee.op == 'attrfn':
            pass
        if callee.op != 'py':
            cls = self.class_of(callee)
            if cls is not None:
                m = self.prog.find_method(cls, '__call__')
                if m:
                    return self.inline(m, [callee] + args, kwargs, st, fr,
                                       node=node)
            a2 = [self.resolve(a, st) for a in args if not isinstance(a, Star)]
            if any(isinstance(a, Star) for a in args) or kwargs:
                return opaque('call of unknown')
            return t.raw('apply', callee, *a2)
        o = callee.args[0].o
        if isinstance(o, Func):
            if o.cls is not None and o.is_property and not args:
                return opaque('property object')
            return self.inline(o, args, kwargs, st, fr, node=node)
        if isinstance(o, Closure):
            a = ([o.self_t] if o.self_t is not None else []) + args
            return self.inline(o.func, a, kwargs, st, fr, outer=o.fid,
                               node=node)
        if isinstance(o, Virtual):
            if any(isinstance(a, Star) for a in args):
                return opaque('virtual call')
            return t.app('virt:' + o.name, o.recv, *(
                [self.resolve(self.deref(a, st), st) for a in args] +
                [t.raw('kw', k, self.resolve(self.deref(x, st), st))
                 for k, x in sorted(kwargs.items())]))
        if isinstance(o, Class):
            return self.construct(o, args, kwargs, st, fr, node)
        if isinstance(o, BoundExt):
            from .builtins_ import method_call
            return method_call(self, o, args, kwargs, st, fr, node)
        if isinstance(o, Ext):
            from .builtins_ import ext_call
            if o.name in self.record:
                self.calls.append((o.name, fr.pc, [
                    x if isinstance(x, Star) else self.resolve(
                        self.deref(x, st), st) for x in args],
                    {k: self.resolve(self.deref(x, st), st)
                     for k, x in kwargs.items()}, tuple(self.loop_vars),
                    node))
            if o.name in self.overrides:
                return self.overrides[o.name](self, args, kwargs, st, fr)
            return ext_call(self, o.name, args, kwargs, st, fr, node)
        return opaque('call')

    def construct(self, cls, args, kwargs, st, fr, node):
        if 'new ' + cls.name in self.record:
            self.calls.append(('new ' + cls.name, fr.pc, list(args),
                               dict(kwargs), tuple(self.loop_vars), node))
        if any(isinstance(b, ast.Name) and b.id.endswith(('Error',
                                                          'Exception'))
               for b in cls.node.bases):
            return opaque('exception')
        obj = t.raw('new', '%s%d' % (cls.name, next(_uid)), *self.loop_vars,
                    sort=self.sort_of_class(cls))
        init = self.prog.find_method(cls, '__init__')
        if init is not None:
            self.inline(init, [obj] + args, kwargs, st, fr, node=node)
        elif args or kwargs:
            return opaque('construct ' + cls.name)
        return obj

    # ---- conversions
    def to_set(self, v, fr, st):
        v = self.deref(v, st)
        if v.op == 'ite':
            return ite(v.args[0], self.to_set(v.args[1], fr, st),
                       self.to_set(v.args[2], fr, st))
        c = self.class_of(v)
        if c is not None:
            m = self.prog.find_method(c, '__iter__')
            if m:
                return self.to_set(self.inline(m, [v], {}, st, fr), fr, st)
        if v.sort.startswith('set'):
            return v
        if v.op == 'lst':
            return t.sset(*v.args)
        if v.op == 'lmap':
            return self.mk_img(v.args[0], v.args[1], v.args[2], v.args[3])
        es = t.esort(v)
        return t.raw('toset', v, sort='set:' + es if es != 'any' else 'set')

    def mk_img(self, var, src, cond, body):
        if body.op == 'bv' and body.args[0] == var and cond is TRUE and \
                src.sort.startswith('set'):
            return src
        return t.binder('img', var, src, cond, body,
                        sort='set:' + body.sort if body.sort != 'any'
                        else 'set')

    def to_list(self, v, fr, st):
        v = self.deref(v, st)
        c = self.class_of(v)
        if c is not None:
            m = self.prog.find_method(c, '__iter__')
            if m:
                return self.to_list(self.inline(m, [v], {}, st, fr), fr, st)
        if v.sort.startswith('list') or v.op == 'lst':
            return v
        es = t.esort(v)
        return t.raw('tolist', v, sort='list:' + es if es != 'any'
                     else 'list')

    def iter_of(self, v, fr, st):
        """The term that is iterated over."""
        v = self.deref(v, st)
        c = self.class_of(v)
        if c is not None:
            m = self.prog.find_method(c, '__iter__')
            if m:
                return self.iter_of(self.inline(m, [v], {}, st, fr), fr, st)
        if v.sort == 'dict':
            return t.app('keys', v, sort='list')
        return v


class Star:
    def __init__(self, x):
        self.t = x


class Unsupported(Exception):
    pass


def _as_load(x):
    import copy
    y = copy.deepcopy(x)
    y.ctx = ast.Load()
    return y
