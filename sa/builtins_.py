"""Terms for calls of builtin, container and library functions."""
import itertools

from . import terms as t
from .terms import TRUE, FALSE, NONE, const, ite, and_, or_, not_, T

PURE_NP_BOOL = {'np.any', 'np.all', 'np.allclose', 'np.isscalar',
                'math.isnan', 'math.isinf', 'np.array_equal', 'math.isclose'}
NUM_FUN = {'math.sqrt', 'math.sin', 'math.cos', 'math.tan', 'math.exp',
           'math.log', 'math.gamma', 'math.pow', 'math.fabs', 'math.acos',
           'math.asin', 'math.atan', 'math.cosh', 'math.sinh', 'math.tanh',
           'math.acosh', 'math.asinh', 'math.atanh', 'math.atan2',
           'math.hypot', 'math.log2', 'math.log10', 'math.log1p',
           'math.expm1', 'math.dist', 'math.prod', 'math.fsum',
           'math.copysign', 'math.fmod', 'math.erf', 'math.lgamma',
           'math.remainder', 'math.degrees', 'math.radians', 'math.cbrt'}
INT_FUN = {'math.floor', 'math.ceil', 'math.factorial', 'math.comb',
           'math.isqrt', 'math.trunc', 'math.gcd', 'math.perm', 'ord'}


def _flat(ev, args, st):
    from .evalr import Star
    out = []
    for a in args:
        if isinstance(a, Star):
            s = ev.resolve(ev.deref(a.t, st), st)
            if s.op == 'lst':
                out.extend(s.args)
            else:
                return None
        else:
            out.append(a)
    return out


def _res(ev, args, st):
    return [ev.resolve(ev.deref(a, st), st) for a in args]


def opaque(why, sort='any'):
    from .evalr import opaque as o
    return o(why, sort)


# ------------------------------------------------------------- functions
def ext_call(ev, name, args, kwargs, st, fr, node):
    from .evalr import Star, Ext, Closure, BoundExt
    # calls on classes of builtin containers, e.g. set.intersection(a, b)
    if name.startswith(('set.', 'dict.', 'list.', 'str.', 'frozenset.')):
        return type_method(ev, name, args, kwargs, st, fr, node)
    if any(isinstance(a, Star) for a in args):
        a2 = _flat(ev, args, st)
        if a2 is None:
            return star_call(ev, name, args, kwargs, st, fr, node)
        args = a2
    f = SPECIAL.get(name)
    if f is not None:
        return f(ev, args, kwargs, st, fr, node)
    if name.startswith(('np.random.', 'numpy.random.', 'random.',
                        'secrets.', 'os.urandom')):
        return random_call(ev, name, args, kwargs, st, fr, node)
    if name.startswith('object.'):
        if name == 'object.__init__':
            return NONE
        return opaque(name)
    a = _res(ev, args, st)
    kw = {k: ev.resolve(ev.deref(v, st), st) for k, v in kwargs.items()}
    for x in list(a) + list(kw.values()):
        if x.op == 'py' and isinstance(x.args[0].o, (Closure, BoundExt)):
            return opaque('callback to ' + name)
    if name in NUM_FUN:
        return fold_num(name, a)
    if name in INT_FUN:
        return t.app(name, *a, sort='int')
    sort = 'any'
    if name in PURE_NP_BOOL:
        sort = 'bool'
    elif name in ('np.sum', 'np.max', 'np.min', 'np.dot', 'np.inner',
                  'np.linalg.norm', 'np.sqrt', 'np.square', 'np.abs',
                  'np.absolute', 'np.sin', 'np.cos', 'np.tan', 'np.exp',
                  'np.log', 'np.power', 'np.maximum', 'np.minimum',
                  'np.sign', 'np.prod', 'np.cosh', 'np.sinh', 'np.arccos',
                  'np.arctan', 'np.arctanh', 'np.tanh', 'np.arcsin',
                  'np.mean', 'np.amax', 'np.amin', 'np.arctan2', 'np.ceil',
                  'np.floor', 'np.round', 'np.mod', 'np.fabs', 'np.hypot',
                  'np.arcsinh', 'np.arccosh', 'np.cbrt', 'np.add',
                  'np.subtract', 'np.multiply', 'np.divide'):
        sort = 'array' if any(x.sort == 'array' for x in a) and name in (
            'np.square', 'np.abs', 'np.sqrt', 'np.maximum', 'np.minimum',
            'np.absolute', 'np.fabs', 'np.add', 'np.subtract',
            'np.multiply', 'np.divide') else 'num'
        if name in ('np.sum', 'np.max', 'np.min') and kw:
            sort = 'array'
    elif name.startswith('np.random.') or name in ('np.random',):
        sort = 'any'
    elif name == 'np.where' and len(a) == 1 or name == 'np.nonzero':
        sort = 'list:array'
    elif name.startswith('np.'):
        sort = 'array'
    out = list(a)
    for k in sorted(kw):
        out.append(t.raw('kw', k, kw[k]))
    r = t.app(name, *out, sort=sort)
    if sort == 'array' and name in ('np.zeros', 'np.empty', 'np.ones',
                                    'np.array', 'np.full', 'np.zeros_like',
                                    'np.eye', 'np.identity', 'np.copy',
                                    'np.arange', 'np.linspace',
                                    'np.concatenate', 'np.outer'):
        return ev.new_ref(st, r, 'array')
    return r


def fold_num(name, a):
    import math
    if all(x.op == 'const' and isinstance(t.cval(x), (int, float)) and
           not isinstance(t.cval(x), bool) for x in a):
        try:
            return const(float(getattr(math, name[5:])(*[t.cval(x)
                                                         for x in a])))
        except Exception:
            pass
    return t.app(name, *a, sort='num')


def star_call(ev, name, args, kwargs, st, fr, node):
    from .evalr import Star
    if len(args) == 1 and not kwargs:
        s = ev.resolve(ev.iter_of(args[0].t, fr, st), st)
        if name in ('max', 'min'):
            return t.app(name + 'L', s, sort=t.esort(s))
        if name == 'zip':
            return t.app('zipstar', s, sort='list')
        if name in ('math.hypot',):
            return t.app(name + '*', s, sort='num')
    return opaque('star call ' + name)


def b_len(ev, args, kw, st, fr, node):
    v = ev.deref(args[0], st)
    c = ev.class_of(v)
    if c is not None:
        m = ev.prog.find_method(c, '__len__')
        if m:
            return ev.inline(m, [v], {}, st, fr)
        ev.raise_exit(fr, st, TRUE, 'TypeError', node)
        return opaque('len')
    v = ev.resolve(v, st)
    if v.op == 'const' and isinstance(t.cval(v), str):
        return const(len(t.cval(v)))
    return t.size(v)


def b_set(ev, args, kw, st, fr, node):
    if not args:
        return ev.new_ref(st, t.EMPTY, 'set')
    v = args[0]
    s = ev.to_set(v, fr, st)
    return ev.new_ref(st, ev.resolve(s, st), 'set')


def b_list(ev, args, kw, st, fr, node):
    if not args:
        return ev.new_ref(st, t.lst(), 'list')
    v = ev.to_list(ev.iter_of(args[0], fr, st), fr, st)
    return ev.new_ref(st, ev.resolve(v, st), 'list')


def b_tuple(ev, args, kw, st, fr, node):
    if not args:
        return t.lst()
    return ev.resolve(ev.to_list(ev.iter_of(args[0], fr, st), fr, st), st)


def b_dict(ev, args, kw, st, fr, node):
    d = t.DEMPTY
    if args:
        v = ev.deref(args[0], st)
        if v.sort == 'dict':
            d = v
        else:
            d = t.app('dictL', ev.resolve(v, st), sort='dict')
    star = kw.pop('**', None)
    if star is not None:
        d = t.dupd(d, ev.deref(star, st))
    for k, v in kw.items():
        d = t.dstore(d, const(k), v)
    return ev.new_ref(st, d, 'dict')


def seq(ev, v, fr, st):
    return ev.resolve(ev.iter_of(v, fr, st), st)


def b_sum(ev, args, kw, st, fr, node):
    s = seq(ev, args[0], fr, st)
    start = args[1] if len(args) > 1 else kw.get('start', const(0))
    if s.op == 'lst':
        r = start
        for x in s.args:
            r = t.arith('add', r, x)
        return r
    e = t.esort(s)
    so = 'int' if e in ('int', 'bool') else 'num'
    r = t.app('sumL', s, sort=so)
    return r if start is const(0) else t.arith('add', start, r)


def b_minmax(name):
    def f(ev, args, kw, st, fr, node):
        if len(args) == 1:
            s = seq(ev, args[0], fr, st)
            key = kw.get('key')
            d = kw.get('default')
            if key is not None and key is not NONE:
                k = b_map(ev, [key, s], {}, st, fr, node)
                if k.op == 'opaque' or d is not None:
                    return opaque(name + ' key')
                ev.raise_exit(fr, st, not_(ev.truth(
                    s if s.sort.startswith(('set', 'list')) else
                    t.raw('tolist', s, sort='list'), st)),
                    'ValueError', node)
                return t.app(name + 'by', s, k, sort=t.esort(s))
            if s.op == 'lst' and s.args:
                r = s.args[0]
                for x in s.args[1:]:
                    r = mm(name, r, x)
                return r
            if d is None:
                ev.raise_exit(fr, st, not_(ev.truth(
                    s if s.sort.startswith(('set', 'list')) else
                    t.raw('tolist', s, sort='list'), st)),
                    'ValueError', node)
                return t.app(name + 'L', s, sort=t.esort(s)
                             if t.esort(s) != 'any' else 'num')
            return t.app(name + 'L', s, d, sort=t.esort(s)
                         if t.esort(s) != 'any' else 'num')
        a = _res(ev, args, st)
        r = a[0]
        for x in a[1:]:
            r = mm(name, r, x)
        return r
    return f


def mm(name, a, b):
    if a.op == 'const' and b.op == 'const':
        return const((max if name == 'max' else min)(t.cval(a), t.cval(b)))
    return t.app(name + '2', a, b, sort=t.join_sort(a.sort, b.sort))


def b_any(isany):
    def f(ev, args, kw, st, fr, node):
        s = seq(ev, args[0], fr, st)
        if s.sort == 'array':
            return t.app('np.any' if isany else 'np.all', s, sort='bool')
        if s.op == 'lst':
            xs = [ev.truth(x, st, fr) for x in s.args]
            return or_(*xs) if isany else and_(*xs)
        if s.op in ('lmap', 'img'):
            v, src, c, b = s.args
            tb = ev.truth(b, st, fr)
            if isany:
                return t.exists(v, src, and_(c, tb))
            return not_(t.exists(v, src, and_(c, not_(tb))))
        if s.op == 'lflat':
            inner = s.args[3]
            g = b_any_term(ev, inner, isany, st, fr)
            if g is not None:
                v, src, c = s.args[:3]
                if isany:
                    return t.exists(v, src, and_(c, g))
                return not_(t.exists(v, src, and_(c, not_(g))))
        v = t.fresh_name('x')
        b = t.bv(v, t.esort(s))
        tb = ev.truth(b, st, fr)
        return t.exists(v, s, tb) if isany else \
            not_(t.exists(v, s, not_(tb)))
    return f


def b_any_term(ev, s, isany, st, fr):
    if s.op == 'lmap':
        v, src, c, b = s.args
        tb = ev.truth(b, st, fr)
        if isany:
            return t.exists(v, src, and_(c, tb))
        return not_(t.exists(v, src, and_(c, not_(tb))))
    return None


def b_range(ev, args, kw, st, fr, node):
    a = _res(ev, args, st)
    if len(a) == 1:
        a = [const(0), a[0], const(1)]
    elif len(a) == 2:
        a = [a[0], a[1], const(1)]
    return t.raw('range', *a, sort='list:int')


def b_enumerate(ev, args, kw, st, fr, node):
    s = seq(ev, args[0], fr, st)
    if 'start' in kw:
        args = list(args) + [kw['start']]
    a = [s] + [ev.resolve(x, st) for x in args[1:]]
    return t.app('enumerate', *a, sort='list')


def b_zip(ev, args, kw, st, fr, node):
    return t.app('zip', *[seq(ev, x, fr, st) for x in args], sort='list')


def b_reversed(ev, args, kw, st, fr, node):
    s = seq(ev, args[0], fr, st)
    if s.op == 'lst':
        return t.lst(*reversed(s.args))
    return t.app('reversed', s, sort=s.sort)


def b_sorted(ev, args, kw, st, fr, node):
    s = seq(ev, args[0], fr, st)
    r = ev.resolve(kw.get('reverse', FALSE), st)
    if kw.get('key', NONE) is not NONE:
        k = b_map(ev, [kw['key'], s], {}, st, fr, node)
        if k.op == 'opaque':
            return opaque('sorted key', 'list')
        return ev.new_ref(st, t.app('sortedby', s, k, r, sort=s.sort if
                                    s.sort.startswith('list') else 'list:' +
                                    t.esort(s)), 'list')
    return ev.new_ref(st, t.app('sorted', s, r, sort='list:' + t.esort(s)
                                if t.esort(s) != 'any' else 'list'), 'list')


def b_isinstance(ev, args, kw, st, fr, node):
    v = ev.deref(args[0], st)
    ty = ev.deref(args[1], st)
    if args[0].op == 'ref' and v.sort.startswith('list') and ty.op == 'py' \
            and getattr(ty.args[0].o, 'name', '') in ('list', 'tuple'):
        # tuples are values, list objects live in the heap
        return const(ty.args[0].o.name == 'list')
    return isinst(ev, v, ty)


def isinst(ev, v, ty):
    from .evalr import Ext
    from .program import Class
    if ty.op == 'lst':
        return or_(*[isinst(ev, v, x) for x in ty.args])
    if v.op == 'ite':
        return ite(v.args[0], isinst(ev, v.args[1], ty),
                   isinst(ev, v.args[2], ty))
    if ty.op == 'py':
        o = ty.args[0].o
        c = ev.class_of(v)
        if isinstance(o, Class):
            if c is not None:
                return const(o in ev.prog.mro(c))
            if v.op == 'const' or v.sort.split(':')[0] in (
                    'int', 'num', 'str', 'bool', 'set', 'list', 'array',
                    'dict', 'none'):
                return FALSE
        if isinstance(o, Ext):
            s = v.sort.split(':')[0]
            m = {'int': ('int', 'bool'), 'float': ('num',), 'str': ('str',),
                 'bool': ('bool',), 'set': ('set',), 'dict': ('dict',),
                 'np.ndarray': ('array',)}
            if s in ('any',):
                return t.app('isinstance', v, const(o.name), sort='bool')
            if s == 'num' and v.op != 'const' and o.name in ('int',
                                                             'float'):
                return t.app('isinstance', v, const(o.name), sort='bool')
            if s == 'list' and o.name in ('list', 'tuple'):
                if v.op == 'sym':
                    return const(o.name == (
                        'tuple' if v.args[0].startswith('tup:') else 'list'))
                return t.app('isinstance', v, const(o.name), sort='bool')
            if o.name in m:
                return const(s in m[o.name])
            if o.name in ('list', 'tuple') and s in (
                    'int', 'num', 'str', 'bool', 'set', 'dict', 'array',
                    'none'):
                return FALSE
    return t.app('isinstance', v, const('?'), sort='bool') \
        if False else opaque('isinstance', 'bool')


def b_hasattr(ev, args, kw, st, fr, node):
    v = ev.deref(args[0], st)
    n = args[1]
    if n.op != 'const':
        return opaque('hasattr', 'bool')
    name = t.cval(n)
    c = ev.class_of(v)
    if c is not None:
        m = ev.prog.find_method(c, name)
        if m is not None:
            if m.is_property:
                n0 = len(fr.exits)
                pc = fr.pc
                fr.pc = TRUE
                s2 = st.copy()
                ev.attr(v, name, fr, s2, node)
                ex = fr.exits[n0:]
                del fr.exits[n0:]
                fr.pc = pc
                return not_(or_(*[e.cond for e in ex
                                  if e.val == 'AttributeError'])) \
                    if ex else TRUE
            return TRUE
        if ev.prog.find_attr(c, name) is not None and \
                name not in ev.heap_fields():
            return TRUE
        if name in ev.heap_fields() or name in ev.optional:
            return ev.has_field(st, v, name) if name in ev.optional else TRUE
        return FALSE
    if v.sort == 'any' and v.op != 'py' and name in ev.optional and \
            name.startswith('_') and not ev.prog.definers(name):
        return ev.has_field(st, v, name)
    return opaque('hasattr', 'bool')


def b_delattr(ev, args, kw, st, fr, node):
    ev.del_field(ev.deref(args[0], st), t.cval(args[1]), fr, st, node)
    return NONE


def b_getattr(ev, args, kw, st, fr, node):
    v, n = args[0], args[1]
    if n.op != 'const':
        return opaque('getattr')
    if len(args) == 2:
        return ev.attr(v, t.cval(n), fr, st, node)
    # with default: AttributeError -> default
    n0 = len(fr.exits)
    pc = fr.pc
    fr.pc = TRUE
    r = ev.attr(v, t.cval(n), fr, st, node)
    ex = fr.exits[n0:]
    del fr.exits[n0:]
    bad = or_(*[e.cond for e in ex if e.val == 'AttributeError']) \
        if ex else FALSE
    fr.pc = pc
    return ite(bad, args[2], r)


def b_setattr(ev, args, kw, st, fr, node):
    if args[1].op != 'const':
        ev.opaque_reasons.append('setattr')
        return NONE
    ev.set_attr(ev.deref(args[0], st), t.cval(args[1]), args[2], fr, st)
    return NONE


def b_abs(ev, args, kw, st, fr, node):
    v = ev.resolve(ev.deref(args[0], st), st)
    if v.op == 'const':
        return const(abs(t.cval(v)))
    return t.app('abs', v, sort=v.sort)


def b_int(ev, args, kw, st, fr, node):
    if not args:
        return const(0)
    v = ev.resolve(ev.deref(args[0], st), st)
    if v.sort == 'int':
        return v
    if v.op == 'const':
        try:
            return const(int(t.cval(v)))
        except (TypeError, ValueError, OverflowError):
            pass
    if v.sort == 'bool':
        return ite(v, const(1), const(0))
    return t.app('int', v, sort='int')


def b_float(ev, args, kw, st, fr, node):
    v = ev.resolve(ev.deref(args[0], st), st)
    if v.op == 'const':
        try:
            return const(float(t.cval(v)))
        except (TypeError, ValueError):
            pass
    return t.app('float', v, sort='num')


def b_bool(ev, args, kw, st, fr, node):
    if not args:
        return FALSE
    return ev.truth(args[0], st, fr)


def b_str(ev, args, kw, st, fr, node):
    if not args:
        return const('')
    v = ev.deref(args[0], st)
    c = ev.class_of(v)
    if c is not None:
        for dn in ('__str__', '__repr__'):
            m = ev.prog.find_method(c, dn)
            if m:
                return ev.inline(m, [v], {}, st, fr)
    v = ev.resolve(v, st)
    if v.op == 'const' and isinstance(t.cval(v), (str, int)):
        return const(str(t.cval(v)))
    return t.app('str', v, sort='str')


def b_iter(ev, args, kw, st, fr, node):
    return ev.iter_of(args[0], fr, st)


def b_next(ev, args, kw, st, fr, node):
    s = seq(ev, args[0], fr, st)
    if s.op == 'lmap':
        v, src, c, b = s.args
        r = t.binder('first', v, src, c, b, sort=b.sort)
        ne = t.exists(v, src, c)
    else:
        v = t.fresh_name('x')
        r = t.binder('first', v, s, TRUE, t.bv(v, t.esort(s)),
                     sort=t.esort(s))
        ne = t.exists(v, s, TRUE)
    if len(args) > 1:
        return ite(ne, r, args[1])
    ev.raise_exit(fr, st, not_(ne), 'StopIteration', node)
    return r


def b_print(ev, args, kw, st, fr, node):
    return NONE


def b_map(ev, args, kw, st, fr, node):
    from .loops import domain, lmap
    if len(args) != 2:
        return opaque('map')
    s = seq(ev, args[1], fr, st)
    if s.op == 'lst':
        return t.lst(*[ev.call(args[0], [x], {}, st, fr, node)
                       for x in s.args])
    d = domain(ev, s)
    n0 = len(fr.exits)
    pc = fr.pc
    fr.pc = TRUE
    s2 = st.copy()
    ev.loop_vars.append(t.bv(d.var, 'any'))
    v = ev.resolve(ev.call(args[0], [d.elem], {}, s2, fr, node), s2)
    ev.loop_vars.pop()
    if len(fr.exits) > n0:
        del fr.exits[n0:]
        fr.pc = pc
        return opaque('map raises')
    fr.pc = pc
    return lmap(d.var, d.src, d.cond, v)


def b_filter(ev, args, kw, st, fr, node):
    from .loops import domain, lmap
    s = seq(ev, args[1], fr, st)
    if s.op == 'lst':
        return opaque('filter')
    d = domain(ev, s)
    n0 = len(fr.exits)
    pc = fr.pc
    fr.pc = TRUE
    s2 = st.copy()
    if args[0] is NONE:
        c = ev.truth(d.elem, s2, fr)
    else:
        c = ev.truth(ev.call(args[0], [d.elem], {}, s2, fr, node), s2, fr)
    c = ev.resolve(c, s2)
    if len(fr.exits) > n0:
        del fr.exits[n0:]
        fr.pc = pc
        return opaque('filter raises')
    fr.pc = pc
    return lmap(d.var, d.src, and_(d.cond, c), d.elem)


def b_combinations(ev, args, kw, st, fr, node):
    s = seq(ev, args[0], fr, st)
    e = t.esort(s)
    return t.app('combinations', s, ev.resolve(args[1], st),
                 sort='list' if e == 'any' else 'list:list:' + e)


def b_product(ev, args, kw, st, fr, node):
    if kw:
        rep = kw.get('repeat')
        if set(kw) != {'repeat'} or rep.op != 'const' or \
                rep.sort != 'int' or t.cval(rep) > 6:
            return opaque('product')
    rep = kw.get('repeat')
    rep = t.cval(rep) if rep is not None else 1
    return t.app('product', *[seq(ev, a, fr, st) for a in args] * rep,
                 sort='list')


def b_chain(ev, args, kw, st, fr, node):
    out = t.lst()
    for a in args:
        out = t.add(out, ev.to_list(seq(ev, a, fr, st), fr, st))
    return out


def b_chain_it(ev, args, kw, st, fr, node):
    s = seq(ev, args[0], fr, st)
    v = t.fresh_name('x')
    if s.op == 'lmap':
        return t.binder('lflat', s.args[0], s.args[1], s.args[2],
                        ev.to_list(s.args[3], fr, st), sort='list')
    return t.binder('lflat', v, s, TRUE, t.bv(v, t.esort(s)), sort='list')


def b_reduce(ev, args, kw, st, fr, node):
    from .loops import generic_loop, domain
    f = args[0]
    s = seq(ev, args[1], fr, st)
    from .evalr import Ext
    if f.op == 'py' and isinstance(f.args[0].o, Ext):
        nm = f.args[0].o.name
        m = {'operator.or_': 'unionL', 'set.union': 'unionL',
             'operator.and_': 'interL1', 'set.intersection': 'interL1'}
        if nm in m:
            e = t.esort(s)
            so = e if e.startswith('set') else 'set'
            if len(args) > 2:
                init = ev.resolve(ev.deref(args[2], st), st)
                if m[nm] == 'unionL':
                    return t.union(init, t.app('unionL', s, sort=so))
                return t.app('interL', init, s, sort=so)
            ev.raise_exit(fr, st, not_(t.exists(t.fresh_name(), s, TRUE)),
                          'TypeError', node)
            return t.app(m[nm], s, sort=so)
    if len(args) > 2:
        d = domain(ev, s)
        key = '\0acc%s' % t.fresh_name()
        env = st.frames[fr.fid]
        env[key] = args[2]

        def body(fr2, s2):
            cur = s2.frames[fr2.fid][key]
            s2.frames[fr2.fid][key] = ev.call(f, [cur, d.elem], {}, s2, fr2,
                                              node)
        generic_loop(ev, d, lambda a, b: None, body, [], fr, st, node)
        return st.frames[fr.fid].pop(key)
    return opaque('reduce')


def b_type(ev, args, kw, st, fr, node):
    from .evalr import pyc
    v = ev.deref(args[0], st)
    c = ev.class_of(v)
    if c is not None:
        return pyc(c)
    return opaque('type')


def b_round(ev, args, kw, st, fr, node):
    a = _res(ev, args, st)
    return t.app('round', *a, sort='int' if len(a) == 1 else 'num')


def b_callable(ev, args, kw, st, fr, node):
    v = ev.deref(args[0], st)
    if v.sort == 'fn':
        return TRUE
    return opaque('callable', 'bool')


def b_pow(ev, args, kw, st, fr, node):
    a = _res(ev, args, st)
    return t.arith('pow', a[0], a[1])


def b_nparray(ev, args, kw, st, fr, node):
    v = seq(ev, args[0], fr, st) if ev.deref(args[0], st).sort != 'array' \
        else ev.resolve(ev.deref(args[0], st), st)
    a = _res(ev, args, st)
    d = a[1] if len(a) > 1 else ev.resolve(kw.get('dtype', NONE), st)
    r = t.app('np.array', v, sort='array')
    if d is not NONE:
        r = t.app('astype', r, d, sort='array')
    return ev.new_ref(st, r, 'array')


def b_npasarray(ev, args, kw, st, fr, node):
    """np.asarray: an array of the wanted type is not copied"""
    x = args[0]
    if x.op == 'ref':
        c = ev.deref(x, st)
        d = ev.deref(args[1], st) if len(args) > 1 else ev.resolve(
            kw.get('dtype', NONE), st)
        if c.sort == 'array' and (d is NONE or c.op == 'app' and
                                  c.args[0] == 'astype' and c.args[2] is d):
            return x
    return b_nparray(ev, args, kw, st, fr, node)


def b_npzeros(name):
    def f(ev, args, kw, st, fr, node):
        a = _res(ev, args, st)
        shape = a[0] if a else ev.resolve(kw['shape'], st)
        if shape.sort == 'int':
            shape = t.lst(shape)
        d = a[1] if len(a) > 1 else ev.resolve(kw.get('dtype', NONE), st)
        r = t.app(name, shape, sort='array')
        if d is not NONE:
            r = t.app('astype', r, d, sort='array')
        return ev.new_ref(st, r, 'array')
    return f


def b_npbool(name):
    def f(ev, args, kw, st, fr, node):
        a = _res(ev, args, st)
        s = a[0]
        if kw or len(a) > 1:
            return opaque(name)
        if s.op == 'lmap':
            return b_any(name == 'np.any')(ev, args, kw, st, fr, node)
        return t.app(name, s, sort='bool')
    return f


def binop_call(op):
    def f(ev, args, kw, st, fr, node):
        return ev.binop(op(), args[0], args[1], fr, st, node)
    return f


def cmp_call(op):
    def f(ev, args, kw, st, fr, node):
        return ev.compare(op(), ev.deref(args[0], st), ev.deref(args[1], st),
                          fr, st, node)
    return f


def b_partial(ev, args, kw, st, fr, node):
    return opaque('partial')


import ast as _ast

SPECIAL = {
    'collections.deque': b_list, 'deque': b_list,
    'len': b_len, 'set': b_set, 'frozenset': b_set, 'list': b_list,
    'tuple': b_tuple, 'dict': b_dict, 'sum': b_sum, 'max': b_minmax('max'),
    'min': b_minmax('min'), 'any': b_any(True), 'all': b_any(False),
    'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip,
    'reversed': b_reversed, 'sorted': b_sorted, 'isinstance': b_isinstance,
    'hasattr': b_hasattr, 'delattr': b_delattr, 'getattr': b_getattr,
    'setattr': b_setattr, 'abs': b_abs, 'int': b_int, 'float': b_float,
    'bool': b_bool, 'str': b_str, 'repr': b_str, 'iter': b_iter,
    'next': b_next, 'print': b_print, 'map': b_map, 'filter': b_filter,
    'itertools.combinations': b_combinations,
    'itertools.product': b_product, 'itertools.chain': b_chain,
    'itertools.chain.from_iterable': b_chain_it,
    'functools.reduce': b_reduce, 'type': b_type, 'round': b_round,
    'callable': b_callable, 'pow': b_pow, 'np.array': b_nparray,
    'np.asarray': b_npasarray, 'np.zeros': b_npzeros('np.zeros'),
    'np.empty': b_npzeros('np.empty'), 'np.ones': b_npzeros('np.ones'),
    'np.any': b_npbool('np.any'), 'np.all': b_npbool('np.all'),
    'functools.partial': b_partial,
    'operator.or_': binop_call(_ast.BitOr),
    'operator.and_': binop_call(_ast.BitAnd),
    'operator.sub': binop_call(_ast.Sub),
    'operator.xor': binop_call(_ast.BitXor),
    'operator.add': binop_call(_ast.Add),
    'operator.mul': binop_call(_ast.Mult),
    'operator.lt': cmp_call(_ast.Lt), 'operator.le': cmp_call(_ast.LtE),
    'operator.gt': cmp_call(_ast.Gt), 'operator.ge': cmp_call(_ast.GtE),
    'operator.eq': cmp_call(_ast.Eq), 'operator.ne': cmp_call(_ast.NotEq),
    'operator.contains': lambda ev, a, kw, st, fr, n: ev.contains(
        a[1], a[0], fr, st, n),
}


def type_method(ev, name, args, kwargs, st, fr, node):
    from .evalr import Star, BoundExt
    ty, m = name.split('.', 1)
    if args and isinstance(args[0], Star):
        s = ev.resolve(ev.iter_of(args[0].t, fr, st), st)
        if s.op == 'lst':
            args = list(s.args) + list(args[1:])
            if not args:
                ev.raise_exit(fr, st, TRUE, 'TypeError', node)
                return opaque('unbound method without object')
        elif len(args) == 1 and m in ('intersection', 'union'):
            e = t.esort(s)
            ev.raise_exit(fr, st, not_(t.exists(
                t.fresh_name(), s, TRUE)), 'TypeError', node)
            return t.app('interL1' if m == 'intersection' else 'unionL', s,
                         sort=e if e.startswith('set') else 'set')
        else:
            return opaque(name)
    if not args:
        return opaque(name)
    an = node.args[0] if node is not None and getattr(node, 'args', None) \
        else None
    return method_call(ev, BoundExt(args[0], m, an), args[1:], kwargs, st,
                       fr, node)


# --------------------------------------------------------------- methods
BUILTIN_ATTRS = {n for ty in (set, frozenset, list, dict, str, tuple, int,
                              float) for n in dir(ty)} | {
    'T', 'all', 'any', 'argmax', 'argmin', 'argsort', 'astype', 'clip',
    'conj', 'cumsum', 'diagonal', 'dot', 'dtype', 'fill', 'flatten', 'item',
    'max', 'mean', 'min', 'ndim', 'nonzero', 'prod', 'put', 'ravel', 'real',
    'repeat', 'reshape', 'resize', 'round', 'shape', 'size', 'sort',
    'squeeze', 'std', 'sum', 'take', 'tolist', 'trace', 'transpose', 'var'}
MUTATORS = {'add', 'append', 'update', 'discard', 'remove', 'pop', 'clear',
            'extend', 'insert', 'difference_update', 'intersection_update',
            'symmetric_difference_update', 'popitem', 'setdefault', 'sort',
            'reverse', 'fill', 'resize', 'put', 'appendleft', 'popleft'}


def method_call(ev, o, args, kwargs, st, fr, node):
    from .evalr import Star
    recv, name = o.recv, o.name
    v = ev.deref(recv, st)
    if v.op == 'ite' and v.sort == 'any':
        out = {}

        def fa(f, s):
            out['a'] = method_call(ev, type(o)(v.args[1], name, o.node),
                                   args, kwargs, s, f, node)

        def fb(f, s):
            out['b'] = method_call(ev, type(o)(v.args[2], name, o.node),
                                   args, kwargs, s, f, node)
        ev.branch(v.args[0], fa, fb, fr, st)
        if 'a' in out and 'b' in out:
            return ite(v.args[0], out['a'], out['b'])
        return out.get('a') or out.get('b') or opaque('dead')
    kind = v.sort.split(':')[0]
    if v.op == 'py':
        return opaque('method of %s' % name)
    if kind == 'set':
        return set_method(ev, o, v, args, kwargs, st, fr, node)
    if kind == 'dict':
        return dict_method(ev, o, v, args, kwargs, st, fr, node)
    if kind == 'list':
        return list_method(ev, o, v, args, kwargs, st, fr, node)
    if kind == 'str':
        return str_method(ev, o, v, args, kwargs, st, fr, node)
    if kind == 'rng':
        return draw(ev, v, name, args, kwargs, st, fr, node)
    if kind == 'any':
        # an object of unknown class: only a method that a single class of
        # the program defines (and no builtin type has) is resolved
        d = ev.prog.definers(name)
        if d and name not in BUILTIN_ATTRS:
            if len(d) == 1 and not d[0].is_static and not d[0].is_class:
                return ev.inline(d[0], [v] + args, kwargs, st, fr, node=node)
            from .evalr import Unsupported
            raise Unsupported('call of %s on an unknown object' % name)
        if name in ('setdefault', 'items', 'keys', 'values') or \
                name == 'update' and (
                kwargs or len(args) == 1 and not isinstance(args[0], Star)
                and ev.deref(args[0], st).sort == 'dict'):
            return dict_method(ev, o, v, args, kwargs, st, fr, node)
        if name in MUTATORS:
            ev.write_back(o.node, recv, opaque('unknown ' + name), fr, st)
            return opaque('unknown ' + name)
    a2 = _flat(ev, args, st)
    if a2 is None:
        return opaque('star method ' + name)
    if name == 'copy' and not args and kind in ('int', 'num'):
        return v
    # a method of a set that is not known to be one
    if kind == 'any' and name in ('union', 'intersection', 'difference',
                                  'symmetric_difference', 'issubset',
                                  'issuperset', 'isdisjoint'):
        return set_method(ev, o, v, args, kwargs, st, fr, node)
    a = _res(ev, a2, st)
    kw = [t.raw('kw', k, ev.resolve(ev.deref(x, st), st))
          for k, x in sorted(kwargs.items())]
    sort = 'any'
    if name in ('any', 'all') and not a and not kw:
        return t.app('np.' + name, ev.resolve(v, st), sort='bool')
    if name in ('sum', 'max', 'min', 'mean', 'prod', 'dot') and not kw:
        return t.app('np.' + name, ev.resolve(v, st), *a, sort='num')
    if name == 'astype':
        r = t.app('astype', ev.resolve(v, st), *a, *kw, sort='array')
        return ev.new_ref(st, r, 'array')
    if kind == 'array':
        if name == 'copy':
            return ev.new_ref(st, v, 'array')
        if name == 'tolist':
            return t.app('atolist', ev.resolve(v, st), sort='list')
        if name == 'transpose' and not a:
            return t.app('transpose', ev.resolve(v, st), sort='array')
        if name in ('fill', 'sort', 'put', 'resize', 'itemset', 'partition'):
            new = opaque('array ' + name, 'array')
            if name == 'sort' and not a and not kw:
                new = t.app('np.sort', ev.resolve(v, st), sort='array')
            elif name == 'fill' and len(a) == 1 and not kw:
                new = t.app('np.full_like', ev.resolve(v, st), a[0],
                            sort='array')
            ev.write_back(o.node, recv, new, fr, st)
            return NONE
        sort = 'array'
    if name == 'index' and len(a) == 1 and not kw:
        v = ev.resolve(v, st)
        ev.raise_exit(fr, st, t.eq(t.app('.count', v, a[0], sort='int'),
                                   const(0)), 'ValueError', node)
        return t.app('.index', v, a[0], sort='int')
    return t.app('.' + name, ev.resolve(v, st), *a, *kw, sort=sort)


RNG_ARRAY = ('standard_normal', 'uniform', 'normal', 'random', 'integers',
             'standard_exponential', 'exponential', 'permutation', 'choice',
             'poisson', 'triangular', 'beta', 'gamma', 'multivariate_normal')
_draw = itertools.count(1)


def random_call(ev, name, args, kwargs, st, fr, node):
    """A generator or a draw from a global source of randomness."""
    fn = name.rsplit('.', 1)[1]
    if fn in ('default_rng', 'RandomState', 'Generator', 'Random'):
        a = _res(ev, _flat(ev, args, st) or [], st)
        if fn == 'default_rng' and len(a) == 1 and a[0].sort == 'rng':
            return a[0]
        r = t.app('newrng', const(next(_draw)), sort='rng')
        ev.sources.append((name, fr.pc, node))
        return r
    ev.sources.append((name, fr.pc, node))
    return draw(ev, t.app('newrng', const(0), sort='rng'), fn, args, kwargs,
                st, fr, node)


def draw(ev, rng, name, args, kwargs, st, fr, node):
    a2 = _flat(ev, args, st)
    if a2 is None or name not in RNG_ARRAY:
        return opaque('random ' + name)
    a = _res(ev, a2, st)
    kw = [t.raw('kw', k, ev.resolve(ev.deref(x, st), st))
          for k, x in sorted(kwargs.items())]
    size = [x for x in kw if x.args[0] == 'size'] or a[{
        'uniform': 2, 'normal': 2, 'poisson': 1, 'standard_normal': 0,
        'random': 0}.get(name, 9):]
    sort = 'any' if a or kw else 'num'
    if size:
        z = size[0].args[1] if size[0].op == 'kw' else size[0]
        if z.op == 'lst':
            sort = 'array'
    r = t.app('draw', const(name), rng,
              t.lst(const(next(_draw)), *ev.loop_vars), *a, *kw, sort=sort)
    return ev.new_ref(st, r, 'array') if sort == 'array' else r


def set_method(ev, o, v, args, kwargs, st, fr, node):
    from .evalr import Star
    name = o.name
    fl = _flat(ev, args, st)
    if fl is None:
        s = ev.resolve(ev.iter_of(args[0].t, fr, st), st)
        e = t.esort(s)
        so = e if e.startswith('set') else v.sort
        v = ev.resolve(v, st)
        if name in ('union', 'update') and len(args) == 1:
            r = t.union(v, t.app('unionL', s, sort=so))
        elif name in ('intersection', 'intersection_update') and \
                len(args) == 1:
            r = t.app('interL', v, s, sort=v.sort)
        elif name in ('difference', 'difference_update') and len(args) == 1:
            r = t.diff(v, t.app('unionL', s, sort=so))
        else:
            return opaque('set.' + name, 'set')
        if name in ('update', 'intersection_update', 'difference_update'):
            ev.write_back(o.node, o.recv, r, fr, st)
            return NONE
        return ev.new_ref(st, r, 'set')

    def S(x):
        return ev.resolve(ev.to_set(x, fr, st), st)
    v = ev.resolve(v, st)
    if name == 'copy':
        return ev.new_ref(st, v, 'set')
    if name in ('union', 'update'):
        r = v
        for x in fl:
            r = t.union(r, S(x))
    elif name in ('intersection', 'intersection_update'):
        r = v
        for x in fl:
            r = t.inter(r, S(x))
    elif name in ('difference', 'difference_update'):
        r = v
        for x in fl:
            r = t.diff(r, S(x))
    elif name in ('symmetric_difference', 'symmetric_difference_update'):
        r = t.symdiff(v, S(fl[0]))
    elif name == 'add':
        r = t.union(v, t.sset(ev.resolve(fl[0], st)))
    elif name == 'discard':
        r = t.diff(v, t.sset(ev.resolve(fl[0], st)))
    elif name == 'remove':
        x = ev.resolve(fl[0], st)
        ev.raise_exit(fr, st, t.absent(x, v), 'KeyError', node)
        r = t.diff(v, t.sset(x))
    elif name == 'clear':
        r = t.EMPTY
    elif name == 'issubset':
        return not_(ev.truth(t.diff(v, S(fl[0])), st))
    elif name == 'issuperset':
        return not_(ev.truth(t.diff(S(fl[0]), v), st))
    elif name == 'isdisjoint':
        return not_(ev.truth(t.inter(v, S(fl[0])), st))
    elif name == '__contains__':
        return ev.contains(fl[0], v, fr, st, node)
    elif name in ('__or__', '__ror__'):
        return t.union(v, S(fl[0]))
    elif name == '__and__':
        return t.inter(v, S(fl[0]))
    elif name == '__sub__':
        return t.diff(v, S(fl[0]))
    elif name == '__xor__':
        return t.symdiff(v, S(fl[0]))
    elif name == '__iter__':
        return v
    elif name == '__len__':
        return t.size(v)
    elif name == 'pop':
        v = ev.resolve(v, st)
        x = t.app('anyof', v, sort=t.esort(v))
        ev.raise_exit(fr, st, not_(ev.truth(v, st)), 'KeyError', node)
        ev.write_back(o.node, o.recv, t.diff(v, t.sset(x)), fr, st)
        return x
    else:
        return opaque('set.' + name)
    if name in ('update', 'intersection_update', 'difference_update', 'add',
                'discard', 'remove', 'clear', 'symmetric_difference_update'):
        ev.write_back(o.node, o.recv, r, fr, st)
        return NONE
    return ev.new_ref(st, r, 'set')


def dict_method(ev, o, v, args, kwargs, st, fr, node):
    name = o.name
    fl = _flat(ev, args, st)
    if fl is None:
        return opaque('dict.' + name)
    if name == 'get':
        k = ev.resolve(fl[0], st)
        d = fl[1] if len(fl) > 1 else NONE
        return ite(t.dhas(v, k), t.dget(v, k), d)
    if name == 'copy':
        return ev.new_ref(st, v, 'dict')
    if name == 'update':
        r = v
        if fl:
            e = ev.deref(fl[0], st)
            if e.sort != 'dict':
                c = ev.class_of(e)
                e = t.app('dictL', ev.resolve(e, st), sort='dict')
            r = t.dupd(r, e)
        star = kwargs.pop('**', None)
        if star is not None:
            r = t.dupd(r, ev.deref(star, st))
        for k, x in kwargs.items():
            r = t.dstore(r, const(k), x)
        ev.write_back(o.node, o.recv, r, fr, st)
        return NONE
    if name == 'setdefault':
        k = ev.resolve(fl[0], st)
        d = fl[1] if len(fl) > 1 else NONE
        has = t.dhas(v, k)
        ev.write_back(o.node, o.recv, ite(has, v, t.dstore(v, k, d)), fr, st)
        return ite(has, t.dget(v, k), d)
    if name == 'pop':
        k = ev.resolve(fl[0], st)
        has = t.dhas(v, k)
        old = t.dget(v, k)
        if len(fl) > 1:
            ev.write_back(o.node, o.recv, ite(has, t.ddel(v, k), v), fr, st)
            return ite(has, old, fl[1])
        ev.raise_exit(fr, st, not_(has), 'KeyError', node)
        ev.write_back(o.node, o.recv, t.ddel(v, k), fr, st)
        return old
    if name == 'keys':
        return t.app('keys', ev.resolve(v, st), sort='list')
    if name == 'values':
        return t.app('values', ev.resolve(v, st), sort='list')
    if name == 'items':
        return t.app('items', ev.resolve(v, st), sort='list')
    if name == '__contains__':
        return t.dhas(v, fl[0])
    if name == 'clear':
        ev.write_back(o.node, o.recv, t.DEMPTY, fr, st)
        return NONE
    return opaque('dict.' + name)


def list_method(ev, o, v, args, kwargs, st, fr, node):
    name = o.name
    fl = _flat(ev, args, st)
    if fl is None:
        return opaque('list.' + name)

    def wb(r):
        ev.write_back(o.node, o.recv, r, fr, st)
    if name == 'append':
        wb(t.add(v, t.lst(fl[0])))
        return NONE
    if name == 'extend':
        wb(t.add(v, ev.to_list(ev.iter_of(fl[0], fr, st), fr, st)))
        return NONE
    if name == 'copy':
        return ev.new_ref(st, v, 'list')
    if name == 'index':
        a = _res(ev, fl, st)
        w = ev.resolve(v, st)
        ev.raise_exit(fr, st, t.absent(a[0], w), 'ValueError', node)
        if len(a) == 1 and a[0].op == 'const' and w.op == 'lst' and all(
                x.op == 'const' for x in w.args) and a[0] in w.args:
            return const(w.args.index(a[0]))
        return t.app('lindex', ev.resolve(v, st), *a, sort='int')
    if name == 'count':
        a = _res(ev, fl, st)
        return t.app('lcount', ev.resolve(v, st), *a, sort='int')
    if name == 'reverse':
        if v.op == 'lst':
            wb(t.lst(*reversed(v.args)))
        else:
            wb(t.app('reversed', v, sort=v.sort))
        return NONE
    if name == 'clear':
        wb(t.lst())
        return NONE
    if name in ('sort', 'insert', 'remove', 'appendleft', 'extendleft'):
        w = ev.resolve(v, st)
        if name == 'sort':
            r = ev.deref(b_sorted(ev, [w], kwargs, st, fr, node), st)
        elif name == 'appendleft':
            r = t.add(t.lst(*_res(ev, fl, st)), w)
        elif name == 'extendleft':
            r = opaque('extendleft', v.sort)
        elif name == 'insert':
            r = t.app('insertat', w, *_res(ev, fl, st), sort=v.sort)
        else:
            x = _res(ev, fl, st)[0]
            ev.raise_exit(fr, st, t.absent(x, w), 'ValueError', node)
            r = t.app('lremove', w, x, sort=v.sort)
        wb(r)
        return NONE
    if name in ('pop', 'popleft'):
        k = ev.resolve(fl[0], st) if fl else const(
            -1 if name == 'pop' else 0)
        v = ev.resolve(v, st)
        if v.op == 'lst' and v.args and k.op == 'const' and \
                -len(v.args) <= t.cval(k) < len(v.args):
            l = list(v.args)
            x = l.pop(t.cval(k))
            wb(t.lst(*l))
            return x
        ev.raise_exit(fr, st, not_(ev.truth(v, st)), 'IndexError', node)
        wb(t.app('popat', v, k, sort=v.sort))
        return t.idx(v, k)
    if name == '__contains__':
        return ev.contains(fl[0], v, fr, st, node)
    if name in ('intersection', 'union', 'difference'):
        return opaque('list.' + name, 'set')
    a = _res(ev, fl, st)
    return t.app('.' + name, ev.resolve(v, st), *a)


def str_method(ev, o, v, args, kwargs, st, fr, node):
    name = o.name
    fl = _flat(ev, args, st)
    if fl is None or any(k == '**' for k in kwargs):
        return opaque('str.' + name, 'str')
    a = _res(ev, fl, st)
    if name == 'join':
        a = [seq(ev, fl[0], fr, st)]
        if a[0].op == 'lst' and v.op == 'const' and all(
                x.op == 'const' for x in a[0].args):
            return const(t.cval(v).join(t.cval(x) for x in a[0].args))
    if v.op == 'const' and all(x.op == 'const' for x in a) and not kwargs \
            and name in ('lower', 'upper', 'strip', 'startswith', 'endswith',
                         'replace', 'casefold', 'title', 'capitalize',
                         'lstrip', 'rstrip', 'format', 'count', 'find'):
        try:
            return const(getattr(t.cval(v), name)(*[t.cval(x) for x in a]))
        except Exception:
            pass
    sort = 'bool' if name in ('startswith', 'endswith', 'isdigit') else \
        'int' if name in ('find', 'index', 'count') else \
        'list:str' if name in ('split',) else 'str'
    kw = [t.raw('kw', k, ev.resolve(ev.deref(x, st), st))
          for k, x in sorted(kwargs.items())]
    return t.app('str.' + name, v, *a, *kw, sort=sort)
