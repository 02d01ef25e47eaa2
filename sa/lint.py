"""Resolution of attributes, calls, formats and raised values over the whole library (light, syntax directed types)."""
import ast
import json
import os

from .binding import BUILTINS, COMPS, _bound, bound_here, comp_targets
from .model import ClassInfo, dotted, functions_of, iter_stmts, target_names

EXT = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'extnames.json')))
OBJECT = set(dir(object)) | {'__dict__', '__name__', '__module__', '__bases__', '__mro__', '__qualname__', '__weakref__', '__subclasses__', 'mro', '__func__', '__self__'}
GENERATED = ('_non_extension_', '_extension_for_')


class Inst(object):
    def __init__(self, cls, exact):
        self.cls, self.exact = cls, exact

    def __repr__(self):
        return '%s%s' % (self.cls.name, '' if self.exact else '+')

    def __eq__(self, o):
        return isinstance(o, Inst) and o.cls is self.cls and o.exact == self.exact

    def __hash__(self):
        return hash(self.cls.name)


def kind(t):
    return t[0] if isinstance(t, tuple) else 'inst' if isinstance(t, Inst) else None


class Library(object):
    """class families, attribute stores, open classes and modules"""
    def __init__(self, prog):
        self.prog = prog
        self.funcs = [f for m in prog.modules.values() for f in functions_of(m)]
        self.nested = {}       # function node id -> {name: [functions defined in it]}
        for f in self.funcs:
            if f.parent is not None and f.cls is None:
                self.nested.setdefault(id(f.parent.node), {}).setdefault(f.name, []).append(f)
        self.by_class = {}
        for f in self.funcs:
            if f.cls is not None:
                self.by_class.setdefault(id(f.cls.node), []).append(f)
        self.stores = {}       # class node id -> {attr: [value expr or None, func]}
        self.foreign = set()   # attributes stored on other objects
        self.open = set()      # class node ids with dynamic attributes
        self.module_sets = {}  # module name -> names stored as attribute of the module object
        self.ext_attrs = set()
        for f in self.funcs:
            self.collect(f)
            k = self.extends(f)
            if k is not None:
                # the method becomes an attribute of the class while the extension is active
                d = [d for d in f.node.decorator_list if isinstance(d, ast.Call)][0]
                nm = d.args[2].value if len(d.args) > 2 and isinstance(d.args[2], ast.Constant) else f.name
                self.stores.setdefault(id(k.node), {}).setdefault(nm, []).append((None, None))
        for k in prog.classes:
            if any(getattr(b, 'name', '') == 'ExtensionNode' for b in prog.mro(k)):
                for b in prog.mro(k)[1:]:
                    if isinstance(b, ClassInfo) and b.name != 'ExtensionNode':
                        for nm in k.methods:
                            self.stores.setdefault(id(b.node), {}).setdefault(nm, []).append((None, None))
        for m in prog.modules.values():
            for st in m.tree.body:
                for n in ast.walk(st):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        d = dotted(n.value)
                        r = prog.resolve_in(m, d) if d else ('?',)
                        if r[0] == 'module':
                            self.module_sets.setdefault(r[1].name, set()).add(n.attr)
                        elif r[0] == 'class':
                            self.stores.setdefault(id(r[1].node), {}).setdefault(n.attr, []).append((None, None))
        self._fam, self._attrs, self._names = {}, {}, {}
        # every attribute some object of the library or of a known external type has
        self.universe = set(EXT.get('universe', ())) | self.foreign | OBJECT
        self.methods_named = {}
        for c in prog.classes:
            self.universe |= set(c.methods) | set(c.assigns) | set(c.setters) | set(self.stores.get(id(c.node), ()))
            for nm, f in c.methods.items():
                self.methods_named.setdefault(nm, []).append(f)
        for m in prog.modules.values():
            self.universe |= set(m.symbols)
        for k, v in EXT.items():
            if k != 'universe' and not k.startswith('class '):
                self.universe |= set(v)

    def owner(self, f):
        """class whose instance is `self` in f"""
        while f is not None:
            if f.cls is not None:
                if f.is_static:
                    return None, None
                a = f.node.args.posonlyargs + f.node.args.args
                return (f.cls, a[0].arg) if a else (None, None)
            k = self.extends(f)
            if k is not None:
                return k, f.node.args.args[0].arg
            f = f.parent
        return None, None

    def local_def(self, f, name):
        """the one function of that name that f defines, or None"""
        fs = self.nested.get(id(f.node), {}).get(name, ())
        if len(fs) != 1:
            return None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load) or isinstance(n, ast.arg) and n.arg == name \
                    or isinstance(n, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name) == name for a in n.names):
                return None
        return fs[0]

    def takes(self, mro, name):
        """can the constructors of these classes, one after the other, take the keyword argument?"""
        for k in mro:
            if not isinstance(k, ClassInfo):
                return k not in ('object', 'builtins.object')
            f = k.methods.get('__init__')
            if f is None:
                if '__init__' in k.assigns:
                    return True
                continue
            ps = f.params()
            if any(p[0] == name and p[3] in ('pos', 'kwonly') for p in ps):
                return True
            star = [p[0] for p in ps if p[3] == 'kw']
            if not star:
                return False
            uses = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == star[0]]
            calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__'
                     and isinstance(n.func.value, ast.Call) and dotted(n.func.value.func) == 'super'
                     and any(q.arg is None and isinstance(q.value, ast.Name) and q.value.id == star[0] for q in n.keywords)]
            if len(uses) != 1 or len(calls) != 1:
                return True
        return False

    def extends(self, f):
        """class that gets the function as a method: @extension_method(name, class, ...)"""
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and (dotted(d.func) or '').endswith('extension_method') and len(d.args) >= 2 and f.node.args.args:
                p = dotted(d.args[1])
                r = self.prog.resolve_in(f.module, p) if p else ('?',)
                if r[0] == 'class':
                    return r[1]
        return None

    def collect(self, f):
        cls, me = self.owner(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if isinstance(n.value, ast.Name) and n.value.id == me and cls is not None:
                    self.stores.setdefault(id(cls.node), {}).setdefault(n.attr, []).append((self.value_of(f, n), f))
                else:
                    self.foreign.add(n.attr)
            elif isinstance(n, ast.Call):
                d = dotted(n.func)
                if d == 'setattr' and n.args:
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        self.foreign.add(n.args[1].value)
                    elif cls is not None and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                        self.open.add(id(cls.node))
                    elif dotted(n.args[0]):
                        r = self.prog.resolve_in(f.module, dotted(n.args[0]))
                        if r[0] == 'class':
                            self.open.add(id(r[1].node))
                elif d and cls is not None and d in (str(me) + '.__dict__.update', str(me) + '.__setstate__'):
                    self.open.add(id(cls.node))
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and cls is not None:
                if dotted(n.value) == str(me) + '.__dict__':
                    if isinstance(n.slice, ast.Constant):
                        self.foreign.add(n.slice.value)
                    else:
                        self.open.add(id(cls.node))

    def value_of(self, f, target):
        """expression stored in an attribute by a plain assignment, None otherwise"""
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if t is target:
                        return n.value
        return None

    # ---------------------------------------------------------------- families
    def family(self, c, exact):
        key = (id(c.node), exact)
        if key not in self._fam:
            ks = list(self.prog.mro(c))
            if not exact:
                for s in self.prog.subclasses(c):
                    for k in self.prog.mro(s):
                        if k not in ks:
                            ks.append(k)
            self._fam[key] = ks
        return self._fam[key]

    def attrs_of(self, k):
        """attributes defined by one class itself; None when they cannot be enumerated"""
        key = id(k.node)
        if key not in self._attrs:
            out = set(k.methods) | set(k.assigns) | set(k.setters) | set(self.stores.get(key, ()))
            for st in iter_stmts(k.node.body):
                if isinstance(st, ast.ClassDef):
                    out.add(st.name)
                elif isinstance(st, (ast.Import, ast.ImportFrom)):
                    out.update((a.asname or a.name).split('.')[0] for a in st.names)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        out.update(target_names(t))
                elif isinstance(st, ast.For):
                    out.update(target_names(st.target))
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    out.add(st.target.id)
            if key in self.open or '__getattr__' in k.methods or '__getattribute__' in k.methods:
                out = None
            self._attrs[key] = out
        return self._attrs[key]

    def has_attr(self, inst, name):
        """True, False or None (unknown)"""
        if name in OBJECT or name in self.foreign or name.startswith(GENERATED) or name in self.ext_attrs:
            return True
        unknown = False
        for k in self.family(inst.cls, inst.exact):
            if not isinstance(k, ClassInfo):
                a = ext_class(k)
                if a is None:
                    unknown = True
                elif name in a:
                    return True
                continue
            a = self.attrs_of(k)
            if a is None:
                unknown = True
                a = set(k.methods) | set(k.assigns) | set(self.stores.get(id(k.node), ()))
            if name in a:
                return True
        return None if unknown else False

    # ---------------------------------------------------------------- modules
    def names(self, m, seen=()):
        """-> (names of the module, open?)"""
        if m.name in self._names:
            return self._names[m.name]
        out, opened = set(m.symbols), False
        if m.is_pkg:
            out |= {x[len(m.name) + 1:].split('.')[0] for x in self.prog.modules if x.startswith(m.name + '.')}
        for s in m.star_imports:
            if s in self.prog.modules:
                if s not in seen and s != m.name:
                    o, q = self.names(self.prog.modules[s], seen + (m.name,))
                    out |= o
                    opened |= q
            elif s in EXT:
                out |= set(EXT[s])
            else:
                opened = True
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                out.update(n.names)
        b, c = set(), set()
        for st in m.tree.body:
            _bound(st, out, b, c)
        out |= self.module_sets.get(m.name, set())
        if not seen:
            self._names[m.name] = (out, opened)
        return out, opened

    def dynamic(self, m):
        """suffixes of names that a module generates: DICT['...%s' % x] stores through globals() or a module dictionary"""
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                d = dotted(n.value.func) if isinstance(n.value, ast.Call) else dotted(n.value)
                if d and (d in ('globals', 'vars', 'locals') or d.endswith('__dict__')):
                    return True
            if isinstance(n, ast.Call) and dotted(n.func) == 'setattr':
                return True
        return False


def ext_class(path):
    """attributes of an external base class, None when unknown"""
    if path in ('object', 'builtins.object', 'type'):
        return OBJECT
    v = EXT.get('class ' + path)
    return set(v) if v is not None else None


class Typer(object):
    def __init__(self, lib, fi, module=None):
        self.lib, self.fi, self.prog = lib, fi, lib.prog
        self.module = fi.module if fi is not None else module
        self.cls, self.me = lib.owner(fi) if fi is not None else (None, None)
        self.env = {}
        scope = fi.node if fi is not None else self.module.tree
        self.hidden = {x for n in ast.walk(scope) if isinstance(n, COMPS) for x in comp_targets(n)}
        self.hidden |= {a.arg for n in ast.walk(scope) if isinstance(n, ast.Lambda) for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        if fi is not None:
            self.build()

    def build(self):
        self.locals, _, _ = bound_here(self.fi.node)
        f = self.fi.parent
        self.outer = set()
        while f is not None:
            self.outer |= bound_here(f.node)[0]
            f = f.parent
        assigned = {}
        a = self.fi.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            assigned[p.arg] = [None]
        for n in ast.walk(self.fi.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        assigned.setdefault(t.id, []).append(n.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                assigned.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                assigned.setdefault(n.id, [])
                assigned[n.id].append(n)     # counted against the plain assignments below
        self.imports = {}
        for n in ast.walk(self.fi.node):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[(a.asname or a.name).split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = self.module.resolve_from(n) + '.' + a.name
        self.plain = {}
        for nm, vs in assigned.items():
            vals = [v for v in vs if v is not None and not (isinstance(v, ast.Name) and isinstance(v.ctx, ast.Store))]
            stores = sum(1 for v in vs if isinstance(v, ast.Name) and isinstance(v.ctx, ast.Store))
            if None not in vs and vals and stores == len(vals):
                self.plain[nm] = vals
        self._busy = set()

    def local(self, nm):
        if nm in self.env:
            return self.env[nm]
        if nm in self._busy or nm not in self.plain:
            return None
        self._busy.add(nm)
        try:
            ts = {self.of(v) for v in self.plain[nm]}
        finally:
            self._busy.discard(nm)
        t = ts.pop() if len(ts) == 1 else None
        if t is not None and kind(t) not in ('inst', 'str', 'num', 'class', 'module', 'def', 'ext'):
            t = None
        self.env[nm] = t
        return t

    def of(self, e):
        if isinstance(e, ast.Name):
            if e.id in self.hidden:
                return None
            if self.fi is not None:
                if e.id == self.me and self.cls is not None and not self.meta() and (e.id not in self.locals or self.fi.cls is not None or self.lib.extends(self.fi) is not None) and self.me_kept():
                    return ('class', self.cls) if self.fi.is_classmethod else Inst(self.cls, False)
                if e.id in self.locals:
                    if e.id in self.imports and e.id not in self.plain:
                        return self.resolved(self.prog.resolve_dotted(self.imports[e.id]))
                    g = self.lib.local_def(self.fi, e.id)
                    return ('def', g) if g is not None else self.local(e.id)
                if e.id == self.me:
                    return None
                if e.id in self.outer:
                    f = self.fi.parent
                    while f is not None and e.id not in bound_here(f.node)[0]:
                        f = f.parent
                    g = self.lib.local_def(f, e.id) if f is not None else None
                    return ('def', g) if g is not None else None
            return self.glob(e.id)
        if isinstance(e, ast.Attribute):
            return self.attr(self.of(e.value), e.attr)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'super' and self.cls is not None:
                if not e.args:
                    return ('super', self.cls)
                t = self.of(e.args[0])
                return ('super', t[1]) if kind(t) == 'class' else None
            if isinstance(e.func, ast.Name) and e.func.id in ('str', 'repr'):
                return ('str',)
            if isinstance(e.func, ast.Name) and e.func.id in ('len', 'int', 'float', 'id', 'abs'):
                return ('num',)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('join', 'format', 'strip', 'upper', 'lower') and kind(self.of(e.func.value)) == 'str':
                return ('str',)
            t = self.of(e.func)
            if kind(t) == 'class':
                if any(not isinstance(k, ClassInfo) and ext_class(k) is None for k in self.prog.mro(t[1])):
                    return None
                return Inst(t[1], True) if self.lib.prog.method(t[1], '__new__') is None else None
            return None
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str):
                return ('str',)
            if isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
                return ('num',)
            if e.value is None:
                return ('none',)
            return None
        if isinstance(e, ast.JoinedStr):
            return ('str',)
        if isinstance(e, ast.BinOp):
            l, r = self.of(e.left), self.of(e.right)
            if kind(l) == 'str' and isinstance(e.op, ast.Mod):
                return ('str',)
            if kind(l) == kind(r) and kind(l) in ('str', 'num') and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
                return l
            return None
        return None

    def me_kept(self):
        return not any(isinstance(n, ast.Name) and n.id == self.me and isinstance(n.ctx, ast.Store) for n in ast.walk(self.fi.node))

    def meta(self):
        return self.prog.is_subclass(self.cls, 'type')

    def glob(self, nm):
        names, opened = self.lib.names(self.module)
        if nm in names:
            r = self.prog.resolve_in(self.module, nm)
            return self.resolved(r)
        if nm in BUILTINS:
            return ('builtin', nm)
        return None

    def resolved(self, r, depth=0):
        if r is None:
            return None
        if r[0] in ('module', 'class', 'def'):
            return (r[0], r[1])
        if r[0] == 'ext':
            return ('ext', r[1])
        if r[0] == 'value' and isinstance(r[1], (ast.Attribute, ast.Name)) and dotted(r[1]) and len(r) == 4 and not isinstance(r[2], ClassInfo) and depth < 4:
            # an alias of the module: utils = mdp.utils
            if len(r[2].symbols.get(r[3], ())) == 1 and dotted(r[1]).split('.')[0] in r[2].symbols:
                return self.resolved(self.prog.resolve_in(r[2], dotted(r[1])), depth + 1)
        return None

    def attr(self, t, name):
        k = kind(t)
        if k == 'module':
            names, opened = self.lib.names(t[1])
            if name in names:
                return self.resolved(self.prog._module_attr(t[1], name, frozenset()))
            return None
        if k == 'ext':
            return ('ext', self.prog.resolve_dotted(t[1] + '.' + name)[1])
        if k == 'class':
            r = self.prog.lookup(t[1], name)
            if r and r[0] == 'def':
                return ('unbound', r[1], t[1])
            return None
        if k == 'super':
            r = self.prog.lookup(self.cls, name, after=t[1]) if t[1] in self.prog.mro(self.cls) else self.prog.lookup(t[1], name, after=t[1])
            if r and r[0] == 'def' and not r[1].is_property:
                return ('bound', r[1], Inst(self.cls, False))
            return None
        if k == 'inst':
            if name == '__class__':
                return ('class', t.cls) if t.exact else ('someclass', t)
            fs = self.methods(t, name)
            if fs and not any(f.is_property for f in fs) and (not self.stored(t, name) or all(self.mixin(k) for k in [t.cls] + [f.cls for f in fs])):
                return ('bound', tuple(fs), t)
            return self.stored_type(t, name)
        return None

    def methods(self, t, name):
        """the methods that may be meant by the attribute of an instance"""
        r = self.prog.lookup(t.cls, name)
        if r is not None:
            return [r[1]] if r[0] == 'def' else []
        if t.exact:
            return []
        out = []
        for s in self.prog.subclasses(t.cls):
            r = self.prog.lookup(s, name)
            if r is not None:
                if r[0] != 'def':
                    return []
                if r[1] not in out:
                    out.append(r[1])
        return out

    def mixin(self, k):
        """a class of extension methods: its own methods are those of the extension"""
        return k is not None and any(getattr(b, 'name', '') == 'ExtensionNode' for b in self.prog.mro(k))

    def stored(self, t, name):
        return any(isinstance(k, ClassInfo) and name in self.lib.stores.get(id(k.node), ()) for k in self.lib.family(t.cls, t.exact))

    def stored_type(self, t, name):
        """type of a data attribute: the same class in every assignment"""
        key = (t, name)
        cache = self.lib.__dict__.setdefault('_stored', {})
        if key in cache:
            return cache[key]
        cache[key] = None
        if name in self.lib.foreign or self.lib.has_attr(t, name) is not True:
            return None
        found = set()
        for k in self.lib.family(t.cls, t.exact):
            if not isinstance(k, ClassInfo):
                if ext_class(k) is None or name in (ext_class(k) or ()):
                    return None
                continue
            if name in k.methods:
                return None
            if name in k.assigns:
                if not (isinstance(k.assigns[name], ast.Constant) and k.assigns[name].value is None):
                    return None
            for v, f in self.lib.stores.get(id(k.node), {}).get(name, ()):
                if v is None or f is None:
                    if isinstance(v, ast.Constant):
                        continue
                    return None
                tt = Typer(self.lib, f).of(v)
                if tt == ('none',):
                    continue
                found.add(tt)
        if len(found) == 1:
            cache[key] = found.pop()
            if kind(cache[key]) not in ('inst', 'str', 'num'):
                cache[key] = None
        return cache[key]


# --------------------------------------------------------------------------- calls
def accepts(fi, call, skip):
    """None when the call fits the signature, else a reason; `skip` leading parameters are bound"""
    ps = fi.params()
    pos = [p for p in ps if p[3] == 'pos']
    var = any(p[3] == 'var' for p in ps)
    kw = any(p[3] == 'kw' for p in ps)
    kwonly = [p for p in ps if p[3] == 'kwonly']
    free = pos[skip:]
    npos = sum(1 for a in call.args if not isinstance(a, ast.Starred))
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    given = [k.arg for k in call.keywords if k.arg is not None]
    if npos > len(free) and not var:
        return '%d positional arguments for %d parameters' % (npos, len(free))
    names = [p[0] for p in free] + [p[0] for p in kwonly]
    for g in given:
        if g not in names and not kw:
            return 'unknown argument %s' % g
        if g in [p[0] for p in free[:npos]]:
            return 'argument %s is given twice' % g
    if not star and not dstar:
        for p in free[npos:] + kwonly:
            if not p[1] and p[0] not in given:
                return 'argument %s is missing' % p[0]
    return None


PERCENT = '%'


def conversions(s):
    """conversion types of a % format; (None) when it cannot be parsed; named -> list of names"""
    out, names, i = [], [], 0
    while i < len(s):
        if s[i] != '%':
            i += 1
            continue
        i += 1
        if i >= len(s):
            return None, None
        if s[i] == '%':
            i += 1
            continue
        if s[i] == '(':
            j = s.find(')', i)
            if j < 0:
                return None, None
            names.append(s[i + 1:j])
            i = j + 1
        while i < len(s) and s[i] in '#0- +':
            i += 1
        while i < len(s) and (s[i].isdigit() or s[i] in '.*'):
            if s[i] == '*':
                out.append('d')
            i += 1
        while i < len(s) and s[i] in 'hlL':
            i += 1
        if i >= len(s) or s[i] not in 'diouxXeEfFgGcrsa':
            return None, None
        out.append(s[i])
        i += 1
    return out, names


def const_str(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = const_str(e.left), const_str(e.right)
        return None if a is None or b is None else a + b
    return None
