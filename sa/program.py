"""Program model: every non-test module of /repo, parsed; classes, functions,
imports and inheritance resolved.  Nothing of the repository is imported or run."""
import ast
import hashlib
import os
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'causets'


class AnchorError(Exception):
    """A public construct that a property is anchored at has vanished."""


class Func:
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        decos = []
        for d in getattr(node, 'decorator_list', []):
            if isinstance(d, ast.Name):
                decos.append(d.id)
            elif isinstance(d, ast.Attribute):
                decos.append(d.attr)
            elif isinstance(d, ast.Call):
                f = d.func
                decos.append(f.attr if isinstance(f, ast.Attribute)
                             else getattr(f, 'id', '?'))
        self.decorators = decos
        self.is_property = any(x in ('property', 'cached_property')
                               for x in decos)
        self.is_setter = 'setter' in decos
        self.is_static = 'staticmethod' in decos
        self.is_class = 'classmethod' in decos
        self.is_generator = any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))

    @property
    def qual(self):
        base = self.cls.name + '.' if self.cls else \
            (self.outer.qual + '.' if self.outer else '')
        return base + self.name

    @property
    def where(self):
        return '%s:%d' % (self.module.file, self.node.lineno)

    def __repr__(self):
        return '<Func %s>' % self.qual


def own_nodes(fn):
    """All nodes of a function body, without those of nested functions."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self.bases = []
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s, module, self)
                if f.is_setter:
                    self.setters[f.name] = f
                else:
                    self.methods[f.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None \
                    and isinstance(s.target, ast.Name):
                self.attrs[s.target.id] = s.value
        # aliases such as  __rand__ = __and__
        for k, v in list(self.attrs.items()):
            if isinstance(v, ast.Name) and v.id in self.methods:
                self.methods[k] = self.methods[v.id]
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
                    and v.func.id in ('staticmethod', 'property') and v.args \
                    and isinstance(v.args[0], ast.Name) \
                    and v.args[0].id in self.methods:
                g = self.methods[v.args[0].id]
                h = Func(g.node, module, self)
                h.is_static = v.func.id == 'staticmethod'
                h.is_property = v.func.id == 'property'
                self.methods[k] = h

    def __repr__(self):
        return '<Class %s>' % self.name


class Module:
    def __init__(self, name, file, tree, source):
        self.name = name
        self.file = file
        self.tree = tree
        self.source = source
        self.imports = {}      # local name -> ('mod', modname) | ('sym', modname, symbol)
        self.functions = {}
        self.classes = {}
        self.globals = {}


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self._over = {}
        self._defs = {}
        self.modules = {}
        self.digest = hashlib.sha256()
        for fn in sorted(os.listdir(self.root)):
            if not fn.endswith('.py') or fn.startswith('test_'):
                continue
            with open(os.path.join(self.root, fn), encoding='utf-8') as f:
                src = f.read()
            self.digest.update(fn.encode() + b'\0' + src.encode())
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(src, fn)
            m = Module(fn[:-3], fn, tree, src)
            self.modules[m.name] = m
            self._index(m)
        for m in self.modules.values():
            for c in m.classes.values():
                c.bases = [b for b in (self._resolve_class(m, x)
                                       for x in c.node.bases) if b]
        self.digest = self.digest.hexdigest()

    def _index(self, m):
        for s in self._toplevel(m.tree.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.functions[s.name] = Func(s, m)
            elif isinstance(s, ast.ClassDef):
                m.classes[s.name] = Class(s, m)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.imports[a.asname] = ('mod', a.name)
                    else:
                        m.imports[a.name.split('.')[0]] = \
                            ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    base = PKG + ('.' + base if base else '')
                for a in s.names:
                    m.imports[a.asname or a.name] = ('sym', base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.globals[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and \
                    isinstance(s.target, ast.Name):
                m.globals[s.target.id] = s.value

    def _toplevel(self, body):
        for s in body:
            if isinstance(s, ast.If):
                yield from self._toplevel(s.body)
                yield from self._toplevel(s.orelse)
            elif isinstance(s, ast.Try):
                yield from self._toplevel(s.body)
                for h in s.handlers:
                    yield from self._toplevel(h.body)
            else:
                yield s

    def client(self, src, name='entry'):
        """A fragment of client code as the entry point of an analysis; it
        sees the public names of the package."""
        tree = ast.parse(src, '<client>')
        m = Module('<client>', '<client>', tree, src)
        self._index(m)
        for r in self.modules.values():
            for c in r.classes:
                m.imports.setdefault(c, ('sym', PKG + '.' + r.name, c))
            m.imports.setdefault(r.name, ('mod', PKG + '.' + r.name))
        m.imports.setdefault('np', ('mod', 'numpy'))
        m.imports.setdefault('math', ('mod', 'math'))
        return m.functions[name]

    def repo_module(self, modname):
        if modname == PKG:
            return None
        if modname.startswith(PKG + '.'):
            return self.modules.get(modname[len(PKG) + 1:])
        return self.modules.get(modname) if modname in self.modules else None

    def lookup_global(self, m, name):
        """('class',C) ('func',F) ('module',M) ('ext','np.x') ('value',expr,M)"""
        seen = set()
        while True:
            if (m.name, name) in seen:
                return None
            seen.add((m.name, name))
            if name in m.classes:
                return ('class', m.classes[name])
            if name in m.functions:
                return ('func', m.functions[name])
            if name in m.imports:
                im = m.imports[name]
                if im[0] == 'mod':
                    rm = self.repo_module(im[1])
                    if rm is not None:
                        return ('module', rm)
                    return ('ext', canon_ext(im[1]))
                base, sym = im[1], im[2]
                if base == PKG and sym in self.modules:
                    return ('module', self.modules[sym])
                rm = self.repo_module(base)
                if rm is not None:
                    m, name = rm, sym
                    continue
                return ('ext', canon_ext(base + '.' + sym))
            if name in m.globals:
                return ('value', m.globals[name], m)
            return None

    def _resolve_class(self, m, expr):
        if isinstance(expr, ast.Name):
            r = self.lookup_global(m, expr.id)
            if r and r[0] == 'class':
                return r[1]
        elif isinstance(expr, ast.Attribute) and \
                isinstance(expr.value, ast.Name):
            r = self.lookup_global(m, expr.value.id)
            if r and r[0] == 'module' and expr.attr in r[1].classes:
                return r[1].classes[expr.attr]
        return None

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo.extend(c.bases)
        return out

    def find_method(self, cls, name, after=None):
        mro = self.mro(cls)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def overridden(self, cls, name):
        """Some proper subclass defines the method anew."""
        key = (cls.name, name)
        if key not in self._over:
            self._over[key] = any(
                c is not cls and cls in self.mro(c) and name in c.methods
                for m in self.modules.values() for c in m.classes.values())
        return self._over[key]

    def definers(self, name):
        """The functions of all classes that define the method."""
        if name not in self._defs:
            self._defs[name] = [
                c.methods[name] for m in self.modules.values()
                for c in m.classes.values() if name in c.methods]
        return self._defs[name]

    def find_setter(self, cls, name):
        for c in self.mro(cls):
            if name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs and name not in c.methods:
                return c.attrs[name], c
        return None

    def cls(self, name):
        for m in self.modules.values():
            if name in m.classes:
                return m.classes[name]
        raise AnchorError('class %s has vanished' % name)

    def has_cls(self, name):
        return any(name in m.classes for m in self.modules.values())

    def module(self, name):
        if name not in self.modules:
            raise AnchorError('module %s has vanished' % name)
        return self.modules[name]

    def func(self, qual):
        """'Class.method' or 'module:function'; property getters included."""
        if ':' in qual:
            mod, fn = qual.split(':')
            m = self.module(mod)
            r = self.lookup_global(m, fn)
            if not r or r[0] != 'func':
                raise AnchorError('function %s has vanished' % qual)
            return r[1]
        c, fn = qual.split('.')
        f = self.find_method(self.cls(c), fn)
        if f is None:
            raise AnchorError('method %s has vanished' % qual)
        return f

    def all_functions(self, modules=None):
        for m in self.modules.values():
            if modules and m.name not in modules:
                continue
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                seen = set()
                for f in list(c.methods.values()) + list(c.setters.values()):
                    if id(f.node) not in seen:
                        seen.add(id(f.node))
                        yield f


ALIASES = {
    'numpy': 'np', 'numpy.random': 'np.random', 'math': 'math',
    'matplotlib.pyplot': 'plt',
}


def canon_ext(name):
    for k in sorted(ALIASES, key=len, reverse=True):
        if name == k or name.startswith(k + '.'):
            return ALIASES[k] + name[len(k):]
    return name
