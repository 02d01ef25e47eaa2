"""Where the values of parameters go: def-use chains through functions, constructors and attributes."""
import ast

from .model import ClassInfo, FuncInfo

ALL = object()


def parents(fn):
    par = {}
    for x in ast.walk(fn):
        for y in ast.iter_child_nodes(x):
            par[y] = x
    return par


class Options(object):
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.par = {}
        self.selfreads = {}      # class -> attribute names its own methods read from self
        self.otherreads = set()  # attribute names read from anything else
        self.strings = set()
        self.visited = set()
        self.calls = 0
        for fi in prog.all_functions():
            if '.test' in fi.module.name:
                continue
            k = owner(fi)
            ps = fi.params()
            me = ps[0][0] if k is not None and ps and not fi.is_static else None
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    if isinstance(x.value, ast.Name) and (x.value.id == me or x.value.id == 'self') and k is not None:
                        self.selfreads.setdefault(k, set()).add(x.attr)
                    else:
                        self.otherreads.add(x.attr)
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Attribute) and k is not None:
                    pass
                elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                    self.strings.add(x.value)

    # -------------------------------------------------------------- attributes
    def attribute_read(self, k, name):
        """may an object of class k (or a subclass) have its attribute read somewhere?"""
        if name in self.otherreads or name in self.strings or k is None:
            return True
        fam = {c for c in self.prog.mro(k) if isinstance(c, ClassInfo)}
        for s in self.prog.subclasses(k):
            fam |= {c for c in self.prog.mro(s) if isinstance(c, ClassInfo)}
        return any(name in self.selfreads.get(c, ()) for c in fam) or self.setter(k, name)

    def setter(self, k, name):
        r = self.prog.lookup(k, name)
        if r is None:
            return False
        if r[0] == 'def':
            return True
        return isinstance(r[1], ast.Call)          # property(...)

    # ------------------------------------------------------------------- calls
    def targets(self, call, fi):
        """[(FuncInfo, number of leading parameters already bound)] or None when unknown"""
        f, k, prog = call.func, owner(fi), self.prog
        if isinstance(f, ast.Name):
            loc = local_function(fi, f.id)
            if loc is not None:
                return [(loc, 0)]
            r = prog.resolve_in(fi.module, f.id)
            if r and r[0] == 'def' and not bound_here(fi, f.id):
                return self._callee(r[1])
            if r and r[0] == 'class' and not bound_here(fi, f.id):
                return self._callee(r[1])
            return None
        if not isinstance(f, ast.Attribute):
            return None
        b = f.value
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super' and k is not None:
            out = []
            if b.args and isinstance(b.args[0], ast.Name):
                r = prog.resolve_in(fi.module, b.args[0].id)
                if r and r[0] == 'class' and r[1] is not k:
                    # super(Base, self): the search starts after Base
                    if not isinstance(r[1], ClassInfo):
                        return None
                    m = prog.method(k, f.attr, after=r[1])
                    return [(m, 0 if m.is_static else 1)] if m is not None else None
            m = prog.method(k, f.attr, after=k)
            if m is not None:
                out.append((m, 0 if m.is_static else 1))
            # in another class's MRO the next class may be a different one
            for s in prog.subclasses(k):
                m2 = prog.method(s, f.attr, after=k)
                if m2 is not None and (m2, 0 if m2.is_static else 1) not in out:
                    out.append((m2, 0 if m2.is_static else 1))
            return out or None
        if isinstance(b, ast.Name) and k is not None and b.id == first_param(fi):
            out = []
            for c in [k] + list(prog.subclasses(k)):
                m = prog.method(c, f.attr)
                if m is not None and not m.is_property and (m, 0 if m.is_static else 1) not in out:
                    out.append((m, 0 if m.is_static else 1))
            r = prog.lookup(k, f.attr)
            if r is not None and r[0] != 'def':
                return None
            return out or None
        from .model import dotted
        d = dotted(f)
        if d:
            r = prog.resolve_in(fi.module, d.split('.')[0])
            if bound_here(fi, d.split('.')[0]):
                return None
            try:
                full = prog.resolve_dotted(full_name(fi.module, d, prog))
            except Exception:
                full = None
            if full and full[0] in ('def', 'class'):
                return self._callee(full[1], unbound=True)
        return None

    def _callee(self, x, unbound=False):
        if isinstance(x, FuncInfo):
            return [(x, 0)]
        if isinstance(x, ClassInfo):
            m = self.prog.method(x, '__init__')
            return [(m, 1)] if m is not None else None
        return None

    def bound_param(self, fi, skip, call, arg):
        """name of the parameter an argument expression of the call is bound to (None: unknown)"""
        ps = fi.params()[skip:]
        if isinstance(arg, ast.Starred) or any(isinstance(a, ast.Starred) for a in call.args[:call.args.index(arg) if arg in call.args else 0]):
            return None
        if arg in call.args:
            i = call.args.index(arg)
            pos = [p for p in ps if p[3] == 'pos']
            if i < len(pos):
                return pos[i][0]
            var = [p for p in ps if p[3] == 'var']
            return var[0][0] if var else None
        for kw in call.keywords:
            if kw.value is arg:
                if kw.arg is None:
                    return None
                if any(p[0] == kw.arg and p[3] in ('pos', 'kwonly') for p in ps):
                    return kw.arg
                var = [p for p in ps if p[3] == 'kw']
                return var[0][0] if var else None
        return None

    # ---------------------------------------------------------------- honoured
    def honoured(self, fi, name):
        key = (fi.node, name)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        r = self._honoured(fi, name)
        self.memo[key] = r
        return r

    def _honoured(self, fi, name):
        self.visited.add(fi)
        fn = fi.node
        if isinstance(fn, ast.Lambda):
            return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(fn.body))
        if trivial(fn):
            return True                    # nothing is done with anything: an interface
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('vars', 'locals') for x in ast.walk(fn)):
            return True
        if overwritten_first(fn, name):
            return False
        par = self.par.setdefault(fn, None) or parents(fn)
        self.par[fn] = par
        taint, work = {name}, [name]
        while work:
            t = work.pop()
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and x.id == t and isinstance(x.ctx, ast.Load) and not shadowed(x, t, fn, par):
                    r = self.use(x, fi, par, taint)
                    if r is True:
                        return True
                    for n in r:
                        if n not in taint:
                            taint.add(n)
                            work.append(n)
        return False

    def use(self, x, fi, par, taint):
        """True: the value has an effect here; otherwise the names it flows into"""
        out = set()
        y, p = x, par.get(x)
        while p is not None:
            if isinstance(p, ast.Call) and y is not p.func:
                arg = y
                if isinstance(y, ast.keyword):
                    arg = y.value
                ts = self.targets(p, fi)
                self.calls += 1
                if ts is None:
                    return True
                eff = False
                for m, skip in ts:
                    if m.cls is not None and skip == 0 and not m.is_static and not m.is_classmethod and m.parent is None:
                        skip = 0               # Base.method(self, ...)
                    q = self.bound_param(m, skip, p, arg)
                    if q is None or self.honoured(m, q):
                        eff = True
                if eff:
                    return True
                return out                     # the callee ignores it
            if isinstance(p, (ast.Return, ast.Yield, ast.YieldFrom, ast.Raise, ast.Assert, ast.Await)):
                return True
            if isinstance(p, (ast.FunctionDef, ast.Lambda)) and y in getattr(p, 'decorator_list', []):
                return True
            if isinstance(p, ast.Lambda):
                return True
            if isinstance(p, ast.Delete):
                return out if y is x else True
            if isinstance(p, (ast.If, ast.While)) and y is p.test:
                return True if self.effective_block(p.body + p.orelse, taint) else out
            if isinstance(p, (ast.For, ast.comprehension)) and y is p.iter:
                return True
            if isinstance(p, ast.comprehension):
                return True
            if isinstance(p, ast.withitem):
                return True
            if isinstance(p, ast.Expr):
                return out if isinstance(p.value, (ast.Name, ast.Constant, ast.Attribute)) else True
            if isinstance(p, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                ts = p.targets if isinstance(p, ast.Assign) else [p.target]
                if y in ts:
                    return True                # x[p] = ..., p.attr = ...
                for t in ts:
                    for e in elements(t, p.value if isinstance(p, ast.Assign) else None, x):
                        if isinstance(e, ast.Name):
                            out.add(e.id)
                        elif isinstance(e, ast.Attribute):
                            if isinstance(e.value, ast.Name) and e.value.id == first_param(fi) and owner(fi) is not None:
                                if self.attribute_read(owner(fi), e.attr) and not self.store_lost(p, e, fi):
                                    return True
                            else:
                                return True
                        else:
                            return True
                return out
            if isinstance(p, ast.NamedExpr):
                out.add(p.target.id)
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                return True if y in getattr(getattr(p, 'args', None), 'defaults', []) else out
            y, p = p, par.get(p)
        return out

    def effective_block(self, body, taint):
        for s in body:
            if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)):
                continue
            if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) and t.id in taint for t in s.targets):
                continue
            if isinstance(s, ast.If):
                if self.effective_block(s.body + s.orelse, taint):
                    return True
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                f = s.value.func
                if (isinstance(f, ast.Attribute) and f.attr == 'warn') or isinstance(s.value, ast.Constant):
                    continue
            return True
        return False

    def store_lost(self, stmt, target, fi):
        """self.a = ... at top level, overwritten by a later top-level statement before any read"""
        body = fi.node.body
        if stmt not in body:
            return False
        for s in body[body.index(stmt) + 1:]:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == target.attr and isinstance(t.value, ast.Name)
                                                 and t.value.id == target.value.id for t in s.targets):
                if not any(isinstance(z, ast.Attribute) and z.attr == target.attr for z in ast.walk(s.value)) and \
                        not any(isinstance(z, ast.Call) for z in ast.walk(s.value)):
                    return True
            if any(isinstance(z, ast.Attribute) and z.attr == target.attr for z in ast.walk(s)) or \
                    any(isinstance(z, ast.Call) for z in ast.walk(s)) or isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
                return False
        return False


def elements(t, value, x):
    if isinstance(t, (ast.Tuple, ast.List)):
        if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
            for a, b in zip(t.elts, value.elts):
                if any(z is x for z in ast.walk(b)):
                    yield a
            return
        for e in t.elts:
            for r in elements(e, None, x):
                yield r
    elif isinstance(t, ast.Starred):
        for r in elements(t.value, None, x):
            yield r
    else:
        yield t


def owner(fi):
    while fi is not None:
        if fi.cls is not None:
            return fi.cls
        fi = fi.parent
    return None


def first_param(fi):
    while fi.cls is None and fi.parent is not None:
        fi = fi.parent
    if fi.cls is None or fi.is_static:
        return None
    ps = fi.params()
    return ps[0][0] if ps else None


def local_function(fi, name):
    f = fi
    while f is not None:
        for x in ast.walk(f.node):
            if isinstance(x, ast.FunctionDef) and x.name == name and x is not f.node:
                g = FuncInfo(x, fi.module, None, f)
                return g
        f = f.parent
    return None


def bound_here(fi, name):
    f = fi
    while f is not None:
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
                return True
            if isinstance(x, ast.arg) and x.arg == name:
                return True
        f = f.parent
    return False


def full_name(module, d, prog):
    head, _, rest = d.partition('.')
    r = prog.resolve_in(module, head)
    if r is None:
        raise KeyError(d)
    if r[0] == 'module':
        base = r[1].name
    elif r[0] == 'class':
        base = r[1].module.name + '.' + r[1].name
    else:
        raise KeyError(d)
    return base + '.' + rest


def trivial(fn):
    for s in fn.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, (ast.Pass, ast.Raise)):
            continue
        if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant) and s.value.value is None):
            continue
        if isinstance(s, ast.Try) and all(trivial(b) for b in [s] + s.handlers) and trivial_block(s.orelse) and trivial_block(s.finalbody):
            continue
        return False
    return True


def trivial_block(body):
    return trivial(ast.Module(body=body, type_ignores=[]))


def shadowed(x, name, fn, par):
    """the name belongs to a nested function that has its own parameter of that name"""
    p = par.get(x)
    while p is not None and p is not fn:
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            a = p.args
            if any(q.arg == name for q in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', []) + [z for z in (a.vararg, a.kwarg) if z]):
                return True
        p = par.get(p)
    return False


def overwritten_first(fn, name):
    for s in fn.body:
        if not any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s)):
            continue
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) and \
                not any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s.value)):
            return True
        return False
    return False


def flows_into(fn, name):
    """names in fn that may carry a value computed from parameter name (flow-insensitive)"""
    taint = {name}
    changed = True
    while changed:
        changed = False
        for x in ast.walk(fn):
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and x.value is not None:
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                src = {n.id for n in ast.walk(x.value) if isinstance(n, ast.Name)} | {ast.unparse(n) for n in ast.walk(x.value) if isinstance(n, ast.Attribute)}
                if not src & taint:
                    continue
                for t in ts:
                    for e in ast.walk(t):
                        k = e.id if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Store) else ast.unparse(e) if isinstance(e, (ast.Attribute,)) and isinstance(e.ctx, ast.Store) else \
                            e.value.id if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) else None
                        if k and k not in taint:
                            taint.add(k)
                            changed = True
    return taint


def mentions(expr, taint):
    return any((isinstance(n, ast.Name) and n.id in taint) or (isinstance(n, ast.Attribute) and ast.unparse(n) in taint) for n in ast.walk(expr))
