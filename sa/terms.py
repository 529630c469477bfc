"""Hash-consed value graph terms.

A term denotes a value as a function of the symbols of an obligation.  Joins of
control flow are `ite` gates; loops appear only as closed binder terms (exists,
sum, union, image, ...), never as iterations.
"""
import itertools

_table = {}
_counter = itertools.count()

BINDERS = {'exists': 1, 'sum': 1, 'prod': 1, 'max': 1, 'min': 1, 'bigu': 1,
           'bigi': 1, 'img': 1, 'lmap': 1, 'lflat': 1, 'first': 1,
           'fill': 1, 'maplam': 1, 'lfp': 1, 'pick': 1, 'dmap': 1, 'last': 1}


class T:
    __slots__ = ('op', 'args', 'sort', 'fv', 'id', '__weakref__')

    def __repr__(self):
        return show(self)


def raw(op, *args, sort='any'):
    key = (op, sort) + tuple(('T', a.id) if isinstance(a, T) else
                             (type(a).__name__, a) for a in args)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.sort = sort
    t.id = next(_counter)
    if op == 'bv':
        t.fv = frozenset([args[0]])
    else:
        fv = frozenset()
        if op in ('fold', 'rec'):
            for a in args:
                if isinstance(a, T):
                    fv |= a.fv
            fv -= set(args[0].split(','))
        elif op in BINDERS:
            v = args[0]
            for a in args[2:]:
                if isinstance(a, T):
                    fv |= a.fv
            fv -= {v}
            if op == 'lfp':
                fv |= args[1].fv
            elif isinstance(args[1], T):
                fv |= args[1].fv
        else:
            for a in args:
                if isinstance(a, T):
                    fv |= a.fv
        t.fv = fv
    _table[key] = t
    return t


_vc = itertools.count(1)


def fresh_name(prefix='x'):
    return '%s%d' % (prefix, next(_vc))


def bv(name, sort='any'):
    return raw('bv', name, sort=sort)


def sym(name, sort='any'):
    return raw('sym', name, sort=sort)


def const(v):
    if v is None:
        s = 'none'
    elif isinstance(v, bool):
        s = 'bool'
    elif isinstance(v, int):
        s = 'int'
    elif isinstance(v, float):
        s = 'num'
    elif isinstance(v, str):
        s = 'str'
    else:
        s = 'any'
    return raw('const', type(v).__name__, v, sort=s)


TRUE, FALSE, NONE = const(True), const(False), const(None)
UNBOUND = raw('unbound')


def py(obj, sort='fn'):
    return raw('py', _Id(obj), sort=sort)


class _Id:
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def __hash__(self):
        return id(self.o)

    def __eq__(self, other):
        return isinstance(other, _Id) and self.o is other.o


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[1]


NUMS = ('int', 'num')


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return raw('not', a, sort='bool')


def and_(*xs):
    out = []
    for x in xs:
        for y in (x.args if x.op == 'and' else (x,)):
            if y is FALSE:
                return FALSE
            if y is TRUE or y in out:
                continue
            if not_(y) in out:
                return FALSE
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return raw('and', *out, sort='bool')


def or_(*xs):
    out = []
    for x in xs:
        for y in (x.args if x.op == 'or' else (x,)):
            if y is TRUE:
                return TRUE
            if y is FALSE or y in out:
                continue
            if not_(y) in out:
                return TRUE
            out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return raw('or', *out, sort='bool')


def join_sort(a, b):
    if a == b or b == 'bot':
        return a
    if a == 'bot':
        return b
    if a in NUMS and b in NUMS:
        return 'num'
    if a.split(':')[0] == b.split(':')[0]:
        if a.endswith(':bot'):
            return b
        if b.endswith(':bot'):
            return a
        return a.split(':')[0]
    return 'any'


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.sort == 'bool' and b.sort == 'bool':
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if empty(a) and b.sort.startswith(a.sort):
        so = b.sort
    elif empty(b) and a.sort.startswith(b.sort):
        so = a.sort
    else:
        so = join_sort(a.sort, b.sort)
    return raw('ite', c, a, b, sort=so)


def empty(x):
    return x.op in ('set', 'lst') and not x.args


# bound variables that range over objects which existed before the call
OLD = set()


def is_old(src):
    """The elements of src existed before the call."""
    for y in subterms(src):
        if y.op in ('new', 'opaque', 'ref', 'lfp', 'apply', 'fold', 'recall',
                    'py') or \
                y.op == 'sym' and str(y.args[0]).startswith('carry:') or \
                y.op == 'map0' and '@' in y.args[0] or \
                y.op == 'bv' and y.sort not in ('int', 'num', 'bool', 'str') \
                and y.args[0] not in OLD and y.args[0] in src.fv:
            return False
    return True


def alpha(t, memo=None):
    """A copy with fresh bound variables."""
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if not any(isinstance(a, T) for a in t.args):
            r = t
        elif t.op in BINDERS and isinstance(t.args[0], str):
            v = t.args[0]
            w = fresh_name(v.rstrip('0123456789') or 'x')
            if v in OLD:
                OLD.add(w)
            args = [go(a) if isinstance(a, T) else a for a in t.args[1:]]
            # the sort of the variable is that of its occurrences
            bvs = {y for a in args if isinstance(a, T) for y in subterms(a)
                   if y.op == 'bv' and y.args[0] == v}
            m = {y: bv(w, y.sort) for y in bvs}
            args = [replace(a, m) if isinstance(a, T) and bvs else a
                    for a in args]
            r = raw(t.op, w, *args, sort=t.sort)
        else:
            r = rebuild(t, [go(a) if isinstance(a, T) else a
                            for a in t.args])
        memo[t.id] = r
        return r
    return go(t)


def absent(x, s):
    """x is not in the set s, with the unions taken apart."""
    if s.op == 'union':
        return and_(absent(x, s.args[0]), absent(x, s.args[1]))
    return not_(mem(x, s))


def distinct(a, b):
    """Definitely different objects."""
    if a.op == 'const' and b.op == 'const':
        return cval(a) is not cval(b) and cval(a) != cval(b)
    if a.op == 'new' and b.op == 'new':
        return a.args[0] != b.args[0]
    for x, y in ((a, b), (b, a)):
        if x.op == 'new' and y.op in ('sym', 'const', 'bv'):
            # bound variables may range over new objects, unless their
            # source is closed over what existed before the call
            return y.op != 'bv' or y.args[0] in OLD
        if x is NONE and y.sort not in ('any', 'none') and \
                y.op not in ('ite',):
            return True
        if x is NONE and y.op == 'ite':
            return distinct(NONE, y.args[1]) and distinct(NONE, y.args[2])
    return False


def is_(a, b):
    if a is b:
        return TRUE
    if distinct(a, b):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'const' and y.op == 'ite':
            return ite(y.args[0], is_(x, y.args[1]), is_(x, y.args[2]))
    return raw('is', a, b, sort='bool')


def eq(a, b):
    if a is b and a.op != 'py':
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return const(cval(a) == cval(b))
    if (a is NONE or b is NONE):
        return is_(a, b)
    if a.op == 'new' or b.op == 'new':
        return is_(a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == 'const' and y.op == 'ite' and \
                (y.args[1].op == 'const' or y.args[2].op == 'const'):
            return ite(y.args[0], eq(x, y.args[1]), eq(x, y.args[2]))
    if a.sort == 'str' and b.sort in ('int', 'num', 'bool') or \
            b.sort == 'str' and a.sort in ('int', 'num', 'bool'):
        return FALSE
    return raw('eq', a, b, sort='bool')


def cmp_(op, a, b):
    """op in lt, le"""
    if a.op == 'const' and b.op == 'const':
        try:
            return const(cval(a) < cval(b) if op == 'lt'
                         else cval(a) <= cval(b))
        except TypeError:
            pass
    return raw(op, a, b, sort='bool')


def sel(m, o, sort='any'):
    if m.op == 'store':
        mm, p, v = m.args
        c = is_(p, o)
        if c is TRUE:
            return v
        if c is FALSE:
            return sel(mm, o, sort)
        return ite(c, v, sel(mm, o, sort))
    if m.op == 'mapite':
        return ite(m.args[0], sel(m.args[1], o, sort),
                   sel(m.args[2], o, sort))
    if m.op == 'maplam':
        return subst(m.args[2], {m.args[0]: o})
    if m.op == 'map0' and len(m.args) > 2 and isinstance(m.args[2], T):
        return m.args[2]
    if m.op == 'map0':
        return raw('sel', m, o, sort=m.args[1] if len(m.args) > 1 else sort)
    if m.sort.startswith('map:'):
        sort = m.sort[4:]
    return raw('sel', m, o, sort=sort)


def map0(field, sort):
    return raw('map0', field, sort, sort='map')


def store(m, o, v):
    if m.op == 'store' and m.args[1] is o:
        return store(m.args[0], o, v)
    if sel(m, o) is v:
        return m
    return raw('store', m, o, v, sort='map')


def mapite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return mapite(c.args[0], b, a)
    return raw('mapite', c, a, b, sort='map')


def maplam(v, body):
    return raw('maplam', v, None, body, sort='map')


EMPTY = raw('set', sort='set')


def esort(t):
    s = t.sort
    if ':' in s and s.split(':')[0] in ('set', 'list', 'iter'):
        e = s.split(':', 1)[1]
        return 'any' if e == 'bot' else e
    if t.op == 'item' and t.args[0].sort.startswith('array') and \
            t.args[1].sort.startswith('array'):
        return esort(t.args[0])
    if t.op == 'app' and t.args[0] == 'np.array' and len(t.args) > 1:
        e = esort(t.args[1])
        return e if e == 'event' or e.startswith('obj:') else 'any'
    if t.op == 'idx' and t.args[1].sort not in ('int', 'num', 'bool') and \
            t.args[0].sort.startswith('array'):
        return esort(t.args[0])
    return 'any'


def sset(*xs):
    if not xs:
        return EMPTY
    return raw('set', *xs, sort='set:' + xs[0].sort)


def lst(*xs):
    return raw('lst', *xs, sort='list:' + xs[0].sort if xs else 'list')


def union(a, b):
    if a is EMPTY or a is b:
        return b
    if b is EMPTY:
        return a
    if b.op == 'set' and a.op == 'union' and b in a.args:
        return a
    s = a.sort if esort(a) != 'any' or b.sort.endswith(':bot') else b.sort
    return raw('union', a, b, sort='set:' + s.split(':', 1)[1]
               if ':' in s else 'set')


def inter(a, b):
    if a is EMPTY or b is EMPTY:
        return EMPTY
    if a is b:
        return a
    return raw('inter', a, b, sort=a.sort if esort(a) != 'any' or
               not b.sort.startswith('set') else b.sort)


def diff(a, b):
    if a is EMPTY or b is EMPTY:
        return a
    return raw('diff', a, b, sort=a.sort)


def symdiff(a, b):
    return raw('symdiff', a, b, sort=a.sort)


def mem(x, s):
    if s.op in ('set', 'lst'):
        return or_(*[eq(x, y) if x.sort in ('str', 'int', 'num') or
                     y.sort in ('str', 'int', 'num') or y.op == 'const'
                     or x.sort == y.sort == 'any' else is_(x, y) for y in s.args])
    if s.op == 'ite':
        return ite(s.args[0], mem(x, s.args[1]), mem(x, s.args[2]))
    if x.op == 'new':
        # an object of this call is no element of sets of older objects
        if s.op == 'union':
            return or_(mem(x, s.args[0]), mem(x, s.args[1]))
        if s.op == 'diff':
            return and_(mem(x, s.args[0]), not_(mem(x, s.args[1])))
        if s.op == 'inter':
            return and_(mem(x, s.args[0]), mem(x, s.args[1]))
        if is_old(s):
            return FALSE
    return raw('mem', x, s, sort='bool')


def add(a, b):
    if a.op == 'const' and b.op == 'const':
        try:
            return const(cval(a) + cval(b))
        except TypeError:
            pass
    if a.op == 'lst' and b.op == 'lst':
        return lst(*(a.args + b.args))
    if a.op == 'const' and cval(a) == 0 and a.sort in NUMS and \
            b.sort in NUMS:
        return b
    if b.op == 'const' and cval(b) == 0 and b.sort in NUMS and \
            a.sort in NUMS:
        return a
    return raw('add', a, b, sort=arith_sort(a, b))


def arith_sort(a, b):
    x, y = a.sort, b.sort
    if x.startswith('array') or y.startswith('array'):
        return 'array'
    if x in ('int', 'bool') and y in ('int', 'bool'):
        return 'int'
    if x in ('int', 'num', 'bool') and y in ('int', 'num', 'bool'):
        return 'num'
    if x.startswith('list') and y.startswith('list'):
        return x if esort(a) != 'any' or y.endswith(':bot') else y
    if x == 'str' or y == 'str':
        return 'str'
    return 'any'


def arith(op, a, b):
    if op == 'add':
        return add(a, b)
    if a.op == 'const' and b.op == 'const':
        x, y = cval(a), cval(b)
        try:
            if op == 'sub':
                return const(x - y)
            if op == 'mul' and not isinstance(x, str) and \
                    not isinstance(y, str):
                return const(x * y)
            if op == 'div':
                return const(x / y)
            if op == 'floordiv':
                return const(x // y)
            if op == 'mod' and not isinstance(x, str):
                return const(x % y)
            if op == 'pow' and abs(y) < 20:
                return const(x ** y)
        except (TypeError, ZeroDivisionError, ValueError, OverflowError):
            pass
    s = arith_sort(a, b)
    if op == 'div' and s == 'int':
        s = 'num'
    if op == 'pow' and s == 'int':
        s = 'num'
    return raw(op, a, b, sort=s)


def neg(a):
    if a.op == 'const':
        try:
            return const(-cval(a))
        except TypeError:
            pass
    return raw('neg', a, sort=a.sort)


def app(name, *args, sort='any'):
    if name == 'unionL' and args and args[0].op == 'lst' and \
            not args[0].args:
        return EMPTY
    return raw('app', name, *args, sort=sort)


def binder(op, var, src, *rest, sort='any'):
    if rest and op in ('img', 'lmap', 'lflat') and (
            rest[0] is FALSE or src is EMPTY or
            src.op == 'lst' and not src.args):
        return EMPTY if op == 'img' else lst()
    return raw(op, var, src, *rest, sort=sort)


def exists(var, src, cond):
    if cond is FALSE or src is EMPTY or (src.op == 'lst' and not src.args):
        return FALSE
    return raw('exists', var, src, cond, sort='bool')


def size(t):
    if t.op in ('set', 'lst') and (t.op == 'lst' or len(t.args) < 2):
        return const(len(t.args))
    if t.op == 'lmap' and t.args[2] is TRUE:
        return size(t.args[1])
    if t.op == 'ite':
        return ite(t.args[0], size(t.args[1]), size(t.args[2]))
    return raw('size', t, sort='int')


def idx(t, i):
    if t.op == 'lst' and i.op == 'const' and isinstance(cval(i), int):
        k = cval(i)
        if -len(t.args) <= k < len(t.args):
            return t.args[k]
    if t.op == 'ite':
        return ite(t.args[0], idx(t.args[1], i), idx(t.args[2], i))
    s = esort(t)
    if t.sort.startswith('array'):
        if s == 'event' and i.sort in ('num', 'any'):
            s = 'any'
        elif s == 'any':
            s = 'num'
        elif i.sort != 'int':
            s = 'array'
    return raw('idx', t, i, sort=s)


# --- dictionaries -------------------------------------------------------
DEMPTY = raw('dict', sort='dict')


def dstore(d, k, v):
    return raw('dstore', d, k, v, sort='dict')


def ddel(d, k):
    return raw('ddel', d, k, sort='dict')


def dupd(d, e):
    if e.op == 'dict':
        return d
    if e.op == 'dstore':
        return dstore(dupd(d, e.args[0]), e.args[1], e.args[2])
    return raw('dupd', d, e, sort='dict')


_dmemo = {}


def dhas(d, k):
    key = ('has', d, k)
    r = _dmemo.get(key)
    if r is None:
        r = _dmemo[key] = _dhas(d, k)
    return r


def dget(d, k):
    key = ('get', d, k)
    r = _dmemo.get(key)
    if r is None:
        r = _dmemo[key] = _dget(d, k)
    return r


def _dhas(d, k):
    if d.op == 'dict':
        return FALSE
    if d.op == 'dstore':
        return or_(eq(d.args[1], k), dhas(d.args[0], k))
    if d.op == 'ddel':
        return and_(not_(eq(d.args[1], k)), dhas(d.args[0], k))
    if d.op == 'dupd':
        return or_(dhas(d.args[1], k), dhas(d.args[0], k))
    if d.op == 'ite':
        return ite(d.args[0], dhas(d.args[1], k), dhas(d.args[2], k))
    return raw('dhas', d, k, sort='bool')


def _dget(d, k):
    if d.op == 'dict':
        return raw('missing', k)
    if d.op == 'dstore':
        return ite(eq(d.args[1], k), d.args[2], dget(d.args[0], k))
    if d.op == 'ddel':
        return dget(d.args[0], k)
    if d.op == 'dupd':
        return ite(dhas(d.args[1], k), dget(d.args[1], k), dget(d.args[0], k))
    if d.op == 'ite':
        return ite(d.args[0], dget(d.args[1], k), dget(d.args[2], k))
    return raw('dget', d, k)


# --- traversal ----------------------------------------------------------
def rebuild(t, args):
    """Re-applies the simplifying constructor of t's operator."""
    op = t.op
    if op == 'not':
        return not_(*args)
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'is':
        return is_(*args)
    if op == 'eq':
        return eq(*args)
    if op in ('lt', 'le'):
        return cmp_(op, *args)
    if op == 'sel':
        return sel(args[0], args[1], t.sort)
    if op == 'store':
        return store(*args)
    if op == 'mapite':
        return mapite(*args)
    if op == 'union':
        return union(*args)
    if op == 'inter':
        return inter(*args)
    if op == 'diff':
        return diff(*args)
    if op == 'mem':
        return mem(*args)
    if op in ('add', 'sub', 'mul', 'div', 'pow', 'floordiv', 'mod'):
        return arith(op, *args)
    if op == 'neg':
        return neg(*args)
    if op == 'size':
        return size(*args)
    if op == 'idx':
        return idx(*args)
    if op == 'exists':
        return exists(*args)
    if op in ('img', 'lmap', 'lflat'):
        return binder(op, *args, sort=t.sort)
    if op == 'app' and args[0] == 'unionL':
        return app(*args, sort=t.sort)
    if op == 'dhas':
        return dhas(*args)
    if op == 'dget':
        return dget(*args)
    if op == 'dupd':
        return dupd(*args)
    return raw(op, *args, sort=t.sort)


def subst(t, m, _memo=None):
    """Replaces bound variables (by name) with terms."""
    if _memo is None:
        _memo = {}
    keys = set(m)

    def go(t):
        if not (t.fv & keys):
            return t
        r = _memo.get(t.id)
        if r is not None:
            return r
        if t.op == 'bv':
            r = m[t.args[0]]
        else:
            r = rebuild(t, [go(a) if isinstance(a, T) else a
                            for a in t.args])
        _memo[t.id] = r
        return r
    return go(t)


def replace(t, m):
    """Replaces whole sub-terms (dict term -> term)."""
    memo = {}

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t.id)
        if r is not None:
            return r
        if not any(isinstance(a, T) for a in t.args):
            r = t
        else:
            args = [go(a) if isinstance(a, T) else a for a in t.args]
            if all(x is y for x, y in zip(args, t.args)):
                r = t
            else:
                r = rebuild(t, args)
        memo[t.id] = r
        return r
    return go(t)


def subterms(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)


def contains(t, x):
    return any(y is x for y in subterms(t))


def show(t, depth=6):
    if depth == 0:
        return '…'
    a = t.args

    def s(x):
        return show(x, depth - 1) if isinstance(x, T) else repr(x)
    if t.op in ('bv', 'sym'):
        return str(a[0])
    if t.op == 'const':
        return repr(a[1])
    if t.op == 'py':
        return '<%s>' % (type(a[0].o).__name__)
    if t.op in ('and', 'or'):
        return '(' + (' %s ' % t.op).join(s(x) for x in a) + ')'
    infix = {'lt': '<', 'le': '<=', 'eq': '==', 'is': 'is', 'union': '|',
             'inter': '&', 'diff': '-', 'mem': 'in', 'add': '+', 'sub': '-',
             'mul': '*', 'div': '/', 'pow': '**', 'symdiff': '^'}
    if t.op in infix and len(a) == 2:
        return '(%s %s %s)' % (s(a[0]), infix[t.op], s(a[1]))
    if t.op == 'ite':
        return '(%s if %s else %s)' % (s(a[1]), s(a[0]), s(a[2]))
    if t.op == 'sel' and a[0].op == 'map0':
        return '%s.%s' % (s(a[1]), a[0].args[0])
    return '%s(%s)' % (t.op, ', '.join(s(x) for x in a))
