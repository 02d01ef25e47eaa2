"""Resolved program model: modules, symbols, classes, MRO.

Everything is read from the source text of /repo on each run; nothing of the
analysed program is imported or executed.
"""
import ast
import os
import warnings

from .normal import normalise

REPO = os.environ.get('SA_REPO', '/repo')

# `mdp` computes these names at import time (configuration.get_numx / set up in
# mdp/__init__.py); they always denote the numerical backend.
BACKEND = {
    'numx': 'numpy', 'numx_linalg': 'numpy.linalg', 'numx_fft': 'numpy.fft',
    'numx_rand': 'numpy.random', 'n': None,
}

SKIP_DIRS = {'test', '__pycache__'}


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (exit code 2)."""


class FuncInfo(object):
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls              # ClassInfo owning it, or None
        self.parent = parent        # enclosing FuncInfo for nested functions
        self.name = getattr(node, 'name', '<lambda>')
        self.decorators = [dotted(d.func if isinstance(d, ast.Call) else d)
                           for d in getattr(node, 'decorator_list', [])]

    @property
    def qualname(self):
        if self.cls is not None:
            return '%s.%s' % (self.cls.name, self.name)
        if self.parent is not None:
            return '%s.<locals>.%s' % (self.parent.qualname, self.name)
        return self.name

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_property(self):
        return 'property' in self.decorators

    def params(self):
        """list of (name, has_default, default_node, kind); kind in pos,var,kwonly,kw"""
        a = self.node.args
        pos = list(getattr(a, 'posonlyargs', [])) + list(a.args)
        defs = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        out = [(p.arg, d is not None, d, 'pos') for p, d in zip(pos, defs)]
        if a.vararg:
            out.append((a.vararg.arg, True, None, 'var'))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            out.append((p.arg, d is not None, d, 'kwonly'))
        if a.kwarg:
            out.append((a.kwarg.arg, True, None, 'kw'))
        return out

    def body(self):
        if isinstance(self.node, ast.Lambda):
            r = ast.Return(value=self.node.body)
            ast.copy_location(r, self.node.body)
            return [r]
        return self.node.body

    @property
    def is_generator(self):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom))
                   for n in walk_scope(self.node))

    def loc(self, node=None):
        node = node or self.node
        return '%s:%d' % (self.module.relpath, getattr(node, 'lineno', 0))

    def __repr__(self):
        return '<func %s:%s>' % (self.module.name, self.qualname)


class ClassInfo(object):
    def __init__(self, node, module, parent_func=None):
        self.node = node
        self.module = module
        self.name = node.name
        self.parent_func = parent_func
        self.methods = {}       # name -> FuncInfo
        self.assigns = {}       # name -> value expr (class level)
        self.setters = {}       # property name -> setter FuncInfo
        self.base_exprs = node.bases
        self._mro = None
        self.binding = {}       # closure variable -> ast expr (class factories)
        for st in iter_stmts(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(st, module, self)
                if any(d and d.endswith('.setter') for d in fi.decorators):
                    self.setters[st.name] = fi
                    continue
                self.methods[st.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.assigns[st.target.id] = st.value

    @property
    def qualname(self):
        return '%s.%s' % (self.module.name, self.name)

    def __repr__(self):
        return '<class %s>' % self.qualname


class Module(object):
    def __init__(self, name, path, relpath, is_pkg):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.is_pkg = is_pkg
        with open(path, encoding='utf-8') as f:
            self.text = f.read()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.tree = normalise(ast.parse(self.text))
        except SyntaxError as e:
            raise AnalysisError('cannot parse %s: %s' % (relpath, e))
        self.symbols = {}    # name -> list of ('def', FuncInfo)|('class', ClassInfo)|('import', dotted)|('value', expr)
        self.star_imports = []
        for st in iter_stmts(self.tree.body):
            self._index(st)

    def _add(self, name, what):
        self.symbols.setdefault(name, []).append(what)

    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]

    def _index(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self._add(st.name, ('def', FuncInfo(st, self)))
        elif isinstance(st, ast.ClassDef):
            self._add(st.name, ('class', ClassInfo(st, self)))
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    self._add(a.asname, ('import', a.name))
                else:
                    self._add(a.name.split('.')[0], ('import', a.name.split('.')[0]))
        elif isinstance(st, ast.ImportFrom):
            base = self.resolve_from(st)
            for a in st.names:
                if a.name == '*':
                    self.star_imports.append(base)
                else:
                    self._add(a.asname or a.name, ('import', base + '.' + a.name))
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                for nm in target_names(t):
                    self._add(nm, ('value', st.value if isinstance(t, ast.Name) else None))
        elif isinstance(st, (ast.AnnAssign, ast.AugAssign)):
            for nm in target_names(st.target):
                self._add(nm, ('value', st.value))

    def resolve_from(self, st):
        if st.level == 0:
            return st.module or ''
        pkg = self.package().split('.')
        pkg = pkg[:len(pkg) - (st.level - 1)]
        return '.'.join(pkg + ([st.module] if st.module else []))

    def __repr__(self):
        return '<module %s>' % self.name


def iter_stmts(body):
    """module/class level statements, descending into if/try/with blocks"""
    for st in body:
        yield st
        if isinstance(st, (ast.If, ast.For, ast.While)):
            for s in iter_stmts(st.body):
                yield s
            for s in iter_stmts(st.orelse):
                yield s
        elif isinstance(st, ast.Try):
            for blk in [st.body] + [h.body for h in st.handlers] + [st.orelse, st.finalbody]:
                for s in iter_stmts(blk):
                    yield s
        elif isinstance(st, ast.With):
            for s in iter_stmts(st.body):
                yield s


def target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for e in t.elts for n in target_names(e)]
    if isinstance(t, ast.Starred):
        return target_names(t.value)
    return []


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return None if b is None else b + '.' + e.attr
    return None


def walk_scope(fn):
    """walk nodes of a function without entering nested function/class scopes"""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


class Program(object):
    def __init__(self, repo=None, packages=('mdp', 'bimdp')):
        self.repo = repo or REPO
        self.modules = {}
        self.classes = []
        for pkg in packages:
            root = os.path.join(self.repo, pkg)
            if not os.path.isdir(root):
                raise AnalysisError('package directory %s is missing' % root)
            for d, dirs, files in os.walk(root):
                dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
                for f in sorted(files):
                    if not f.endswith('.py'):
                        continue
                    path = os.path.join(d, f)
                    rel = os.path.relpath(path, self.repo)
                    parts = rel[:-3].split(os.sep)
                    is_pkg = parts[-1] == '__init__'
                    if is_pkg:
                        parts = parts[:-1]
                    name = '.'.join(parts)
                    self.modules[name] = Module(name, path, rel, is_pkg)
        for m in self.modules.values():
            for syms in m.symbols.values():
                for kind, v in syms:
                    if kind == 'class':
                        self.classes.append(v)
            # classes nested in functions
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef,)):
                    for s in iter_stmts(n.body):
                        if isinstance(s, ast.ClassDef):
                            ci = ClassInfo(s, m, parent_func=n.name)
                            self.classes.append(ci)
        self._mro_busy = set()
        self._res_cache = {}
        self.subclasses_cache = None

    # ------------------------------------------------------------- resolution
    def find_function(self, path):
        r = self.resolve_dotted(path)
        if r[0] != 'def':
            raise AnalysisError('anchor function %s not found' % path)
        return r[1]

    def module(self, name):
        return self.modules[name]

    def resolve_dotted(self, path, _seen=None):
        """Resolve an absolute dotted path to ('module',M)/('class',C)/('def',F)/
        ('value',expr,Module,name)/('ext',dotted)."""
        if path in self._res_cache:
            return self._res_cache[path]
        r = self._resolve_dotted(path, _seen or frozenset())
        self._res_cache[path] = r
        return r

    def _resolve_dotted(self, path, seen):
        if path in seen:
            return ('ext', path)
        seen = seen | {path}
        parts = path.split('.')
        # longest module prefix
        for i in range(len(parts), 0, -1):
            mname = '.'.join(parts[:i])
            if mname in self.modules:
                cur = ('module', self.modules[mname])
                return self._descend(cur, parts[i:], seen)
        return ('ext', canon_ext(path))

    def _descend(self, cur, rest, seen):
        for k, part in enumerate(rest):
            kind = cur[0]
            if kind == 'module':
                cur = self._module_attr(cur[1], part, seen)
            elif kind == 'class':
                c = cur[1]
                f = self.lookup(c, part)
                if f is None:
                    return ('ext', c.qualname + '.' + '.'.join(rest[k:]))
                cur = f
            elif kind == 'ext':
                return ('ext', canon_ext(cur[1] + '.' + '.'.join(rest[k:])))
            elif kind == 'value':
                return ('ext', '%s.%s.%s' % (cur[2].name, cur[3], '.'.join(rest[k:])))
            else:
                return ('ext', '.'.join(rest))
        return cur

    def _module_attr(self, m, name, seen):
        if name in m.symbols:
            best = None
            for kind, v in m.symbols[name]:
                if kind == 'def':
                    best = ('def', v)
                elif kind == 'class':
                    best = ('class', v)
                elif kind == 'import':
                    r = self._resolve_dotted(v, seen) if v not in seen else ('ext', v)
                    if best is None or best[0] in ('ext', 'value'):
                        best = r
                elif kind == 'value' and best is None:
                    if BACKEND.get(name):
                        best = ('ext', BACKEND[name])
                    else:
                        r = self._factory_class(m, v, seen) if v is not None else None
                        if r is None and isinstance(v, (ast.Name, ast.Attribute)):
                            d = dotted(v)
                            if d and d.split('.')[0] != name:
                                r2 = self.resolve_in(m, d, seen)
                                if r2[0] in ('class', 'def') or r2[0] == 'ext' and r2[1].split('.')[0] not in ('mdp', 'bimdp', d.split('.')[0]):
                                    r = r2
                        best = r or ('value', v, m, name)
            return best
        sub = m.name + '.' + name
        if sub in self.modules:
            return ('module', self.modules[sub])
        for s in m.star_imports:
            if s in self.modules:
                r = self._module_attr(self.modules[s], name, seen)
                if r[0] != 'ext':
                    return r
        if BACKEND.get(name):
            return ('ext', BACKEND[name])
        return ('ext', m.name + '.' + name)

    def _factory_class(self, m, expr, seen):
        """X = factory(...) where factory returns a nested class"""
        if isinstance(expr, ast.Call):
            d = dotted(expr.func)
            if d:
                r = self.resolve_in(m, d, seen)
                if r[0] == 'def':
                    for c in self.classes:
                        if c.parent_func == r[1].name and c.module is r[1].module:
                            return ('class', c)
        return None

    def resolve_in(self, module, name, seen=frozenset()):
        """resolve a dotted name as seen from a module's global scope"""
        parts = name.split('.')
        if parts[0] in module.symbols or (module.is_pkg and module.name + '.' + parts[0] in self.modules) \
                or module.star_imports:
            cur = self._module_attr(module, parts[0], seen)
            if cur[0] == 'ext' and parts[0] not in module.symbols:
                cur = ('ext', parts[0])
            return self._descend(cur, parts[1:], seen)
        return ('ext', canon_ext(name))

    # ---------------------------------------------------------------- classes
    def find_class(self, name, module=None):
        """by simple or qualified name; AnalysisError when absent"""
        if '.' in name:
            r = self.resolve_dotted(name)
            if r[0] == 'class':
                return r[1]
            name = name.rpartition('.')[2]
        c = [c for c in self.classes if c.name == name and (module is None or c.module.name == module)]
        if not c:
            raise AnalysisError('anchor class %s not found in the source' % name)
        return c[0]

    def bases(self, c):
        out = []
        for b in c.base_exprs:
            if isinstance(b, ast.Call):
                d = dotted(b.func) or ''
                if d.endswith('with_metaclass'):
                    for a in b.args[1:]:
                        r = self._resolve_base(c, a)
                        if r is not None:
                            out.append(r)
                    continue
                r = self._factory_class(c.module, b, frozenset())
                if r:
                    out.append(r[1])
                continue
            r = self._resolve_base(c, b)
            if r is not None:
                out.append(r)
        return out

    def _resolve_base(self, c, e):
        d = dotted(e)
        if d is None:
            return None
        if c.parent_func is not None:
            # sibling classes in the same function
            for k in self.classes:
                if k.name == d and k.parent_func == c.parent_func and k.module is c.module:
                    return k
        r = self.resolve_in(c.module, d)
        if r[0] == 'class':
            return r[1]
        if r[0] == 'ext':
            return r[1]     # external base, dotted string
        return d

    def mro(self, c):
        if c._mro is not None:
            return c._mro
        if c in self._mro_busy:
            return [c]
        self._mro_busy.add(c)
        try:
            seqs = []
            bs = self.bases(c)
            for b in bs:
                seqs.append(list(self.mro(b)) if isinstance(b, ClassInfo) else [b])
            seqs.append(list(bs))
            res = [c]
            seqs = [s for s in seqs if s]
            while seqs:
                cand = None
                for s in seqs:
                    if not any(s[0] in t[1:] for t in seqs):
                        cand = s[0]
                        break
                if cand is None:
                    cand = seqs[0][0]
                    seqs = [[x for x in s if x is not cand] or [] for s in seqs]
                    res.append(cand)
                    seqs = [s for s in seqs if s]
                    continue
                res.append(cand)
                for s in seqs:
                    if s and s[0] is cand or (s and s[0] == cand):
                        del s[0]
                seqs = [s for s in seqs if s]
        finally:
            self._mro_busy.discard(c)
        c._mro = res
        return res

    def is_subclass(self, c, other):
        """other: ClassInfo or dotted/simple external name"""
        for k in self.mro(c):
            if k is other:
                return True
            if not isinstance(k, ClassInfo) and not isinstance(other, ClassInfo):
                if k == other or k.rpartition('.')[2] == other:
                    return True
        return False

    def lookup(self, c, name, after=None):
        """method/attr lookup through the MRO. Returns ('def',F)/('value',expr,C,name)/None"""
        mro = self.mro(c)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if not isinstance(k, ClassInfo):
                continue
            if name in k.methods:
                return ('def', k.methods[name])
            if name in k.assigns:
                return ('value', k.assigns[name], k, name)
        return None

    def method(self, c, name, after=None):
        r = self.lookup(c, name, after)
        if r is not None and r[0] == 'def':
            return r[1]
        # alias such as  foo = bar
        if r is not None and isinstance(r[1], ast.Name):
            return self.method(r[2], r[1].id)
        return None

    def subclasses(self, c):
        return [k for k in self.classes if k is not c and c in self.mro(k)]

    def all_functions(self):
        """every function of the program, nested ones included"""
        for m in self.modules.values():
            for f in functions_of(m):
                yield f


def functions_of(m):
    out = []

    def rec(node, cls, parent):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(ch, m, cls, parent)
                out.append(f)
                rec(ch, None, f)
            elif isinstance(ch, ast.ClassDef):
                ci = _class_of(m, ch)
                rec(ch, ci, parent)
            else:
                rec(ch, cls, parent)
    rec(m.tree, None, None)
    return out


def _class_of(m, node):
    cache = m.__dict__.setdefault('_class_cache', {})
    if id(node) not in cache:
        found = None
        for syms in m.symbols.values():
            for kind, v in syms:
                if kind == 'class' and v.node is node:
                    found = v
        cache[id(node)] = found or ClassInfo(node, m)
    return cache[id(node)]


EXT_ALIASES = [
    ('np.', 'numpy.'), ('scipy.linalg.', 'numpy.linalg.'),
]


def canon_ext(path):
    if path is None:
        return '?'
    if path == 'np':
        return 'numpy'
    for a, b in EXT_ALIASES:
        if path.startswith(a):
            return b + path[len(a):]
    # builtins re-exported by `future`
    if path.startswith('builtins.'):
        return path[len('builtins.'):]
    return path
