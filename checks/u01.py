"""Names, attributes, calls, formats and raised values resolve."""
import ast
import builtins

from sa.binding import Assigned, Scopes, bound_here
from sa.lint import EXT, Inst, Library, Typer, accepts, const_str, conversions, kind
from sa.model import ClassInfo, dotted

TITLE = 'Every name, attribute, call and message in the library resolves'
RULES = ('Whole-library resolution. names: every loaded name is bound in an enclosing scope; assigned: no path of a function uses a local variable before it is assigned (branch conditions '
         'over unchanged operands are correlated, loops run at least once); attribute: attributes of self, of objects of known class, of modules and classes exist somewhere in the class '
         'family; call: calls of functions, methods and classes of the library fit the signature; format: % and str.format constants fit their values; raise: only exceptions are raised.')
ASSUMPTIONS = ['objects of unknown class, and attributes stored on an object by other code, are not decided', 'the names of external modules are those of the installed versions (sa/extnames.json)']
NORETURN = ('sys.exit', 'os._exit', 'exit', 'quit')


def where(f, m):
    return '%s:%s' % (m.relpath, f.qualname if f is not None else '<module>')


def run(c):
    lib = Library(c.prog)
    fmap = {id(f.node): f for f in lib.funcs}
    for m in c.prog.modules.values():
        names, opened = lib.names(m)
        for n, k in Scopes(m, names, opened).run():
            c.count('names')
            if k == 'unknown':
                c.obl('names', '%s:%s' % (m.relpath, n.id), False, '%s:%d' % (m.relpath, n.lineno), 'the name %s is not defined' % n.id)
        Visitor(c, lib, m, fmap).module()
        c.obl('names', m.relpath, True)
        c.count('modules')
    for f in lib.funcs:
        c.visit(f)
        assigned(c, lib, f)
    c.need('names', 10000)
    c.need('functions', 500)
    c.need('attributes', 3000)
    c.need('calls', 500)
    c.need('formats', 50)
    c.need('raises', 100)


# --------------------------------------------------------------------------- assigned
def assigned(c, lib, f):
    c.count('functions')
    loc, g, nl = bound_here(f.node)
    ty = Typer(lib, f)

    def never(call):
        d = dotted(call.func)
        if d in NORETURN:
            return True
        t = ty.of(call.func)
        fs = t[1] if kind(t) == 'bound' and isinstance(t[1], tuple) else [t[1]] if kind(t) in ('def', 'bound', 'unbound') else []
        return len(fs) == 1 and always_raises(fs[0])
    a = Assigned(f.node, loc, never)
    bad = False
    for n, facts in a.run():
        if excluded(lib, ty, f, facts):
            continue
        bad = True
        cond = ', '.join(('' if v else 'not ') + '(%s)' % t for t, v, _ in sorted(facts, key=lambda x: x[0])[:4])
        c.obl('assigned', '%s.%s' % (where(f, f.module), n.id), False, f.loc(n), 'the variable %s may be used before it is assigned%s' % (n.id, ' when ' + cond if cond else ''))
    c.count('uses of local variables', a.uses)
    if not bad:
        c.obl('assigned', where(f, f.module), True)


def always_raises(f):
    for st in f.body():
        if isinstance(st, ast.Raise):
            return True
        if not isinstance(st, (ast.Expr, ast.Assign)):
            return False
    return False


def excluded(lib, ty, f, facts):
    """conditions that exclude every value the constructor admits for an attribute: `x = self.a` with `x == v` false for all v"""
    neg, pos = {}, {}
    for t, v, _ in facts:
        if ' == ' in t:
            l, r = t.split(' == ', 1)
            try:
                (pos if v else neg).setdefault(l, set()).add(ast.literal_eval(r))
            except (ValueError, SyntaxError, TypeError):
                pass
    for l, vals in neg.items():
        e = ast.parse(l, mode='eval').body
        if isinstance(e, ast.Name):
            vs = ty.plain.get(e.id)
            if vs and len(vs) == 1:
                e = vs[0]
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == ty.me and ty.cls is not None:
            dom = domain(lib, ty.cls, e.attr)
            if dom is not None and dom <= vals:
                return True
    return False


def domain(lib, cls, attr):
    """constants that the stores of an attribute admit: each store lies in the branch `value in [constants]`"""
    out = set()
    stores = []
    for k in lib.family(cls, False):
        if isinstance(k, ClassInfo):
            stores += lib.stores.get(id(k.node), {}).get(attr, [])
    if not stores:
        return None
    for v, f in stores:
        if isinstance(v, ast.Constant):
            out.add(v.value)
            continue
        if v is None or f is None:
            return None
        d = guard_domain(f.node, v)
        if d is None:
            return None
        out |= d
    return out


def guard_domain(fn, value):
    text = ast.unparse(value)

    def lits(test):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            l = lits(test.operand)
            return l and (l[0], not l[1])
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and ast.unparse(test.left) == text and isinstance(test.ops[0], (ast.In, ast.NotIn)):
            try:
                return set(ast.literal_eval(test.comparators[0])), isinstance(test.ops[0], ast.In)
            except (ValueError, TypeError):
                return None
        return None

    def rec(body, dom):
        for st in body:
            if isinstance(st, ast.If):
                l = lits(st.test)
                r = rec(st.body, l[0] if l and l[1] else dom) or rec(st.orelse, l[0] if l and not l[1] else dom)
                if r:
                    return r
                if l and not l[1] and st.body and isinstance(st.body[-1], (ast.Raise, ast.Return)):
                    dom = l[0]
                if l and l[1] and st.orelse and isinstance(st.orelse[-1], (ast.Raise, ast.Return)):
                    dom = l[0]
                continue
            if isinstance(st, ast.Assign) and st.value is value:
                return dom
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(st, f, None) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    r = rec(getattr(st, f), dom)
                    if r:
                        return r
        return None
    return rec(fn.body, None)


# --------------------------------------------------------------------------- attributes, calls, formats, raises
class Visitor(object):
    def __init__(self, c, lib, m, fmap):
        self.c, self.lib, self.m, self.fmap = c, lib, m, fmap
        self.typers = {}

    def module(self):
        for st in self.m.tree.body:
            self.visit(st, None, frozenset())

    def typer(self, f):
        if f not in self.typers:
            self.typers[f] = Typer(self.lib, f, self.m)
        return self.typers[f]

    def visit(self, n, f, guards):
        """guards: attribute names that may be missing here (hasattr, except AttributeError)"""
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, f, guards)
            inner = self.fmap[id(n)]
            g = guards | hasattrs(n)
            for st in n.body:
                self.visit(st, inner, g)
            return
        if isinstance(n, ast.Try):
            tolerant = frozenset(['*']) if any(catches(h, ('AttributeError', 'Exception', 'BaseException', 'NameError')) for h in n.handlers) else frozenset()
            calls = frozenset(['()']) if any(catches(h, ('TypeError', 'Exception', 'BaseException')) for h in n.handlers) else frozenset()
            for st in n.body:
                self.visit(st, f, guards | tolerant | calls)
            for st in n.handlers + n.orelse + n.finalbody:
                self.visit(st, f, guards)
            return
        if isinstance(n, ast.Attribute):
            self.attribute(n, f, guards)
        elif isinstance(n, ast.Call):
            self.call(n, f, guards)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            self.percent(n, f)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            self.add(n, f)
        elif isinstance(n, ast.Raise) and n.exc is not None:
            self.raised(n, f)
        for ch in ast.iter_child_nodes(n):
            self.visit(ch, f, guards)

    def report(self, rule, n, f, key, msg):
        self.c.obl(rule, '%s:%s' % (where(f, self.m), key), False, '%s:%d' % (self.m.relpath, n.lineno), msg)

    def attribute(self, n, f, guards):
        if not isinstance(n.ctx, ast.Load):
            return
        t = self.typer(f).of(n.value)
        k = kind(t)
        if k not in ('inst', 'module', 'class', 'ext', 'super'):
            self.c.count('attributes of unknown objects')
            if k is None and n.attr not in self.lib.universe and n.attr not in guards and '*' not in guards:
                self.report('attribute', n, f, n.attr, 'no object of the library has an attribute %s' % n.attr)
            return
        self.c.count('attributes')
        if n.attr in guards or '*' in guards:
            return
        if k == 'inst':
            if self.lib.has_attr(t, n.attr) is False:
                self.report('attribute', n, f, n.attr, '%s has no attribute %s' % (t.cls.name, n.attr))
        elif k == 'class':
            if self.lib.has_attr(Inst(t[1], False), n.attr) is False and n.attr not in ('__init__',):
                self.report('attribute', n, f, n.attr, 'the class %s has no attribute %s' % (t[1].name, n.attr))
        elif k == 'super':
            if self.lib.has_attr(Inst(self.typer(f).cls, False), n.attr) is False:
                self.report('attribute', n, f, n.attr, 'no base class of %s has the attribute %s' % (t[1].name, n.attr))
        elif k == 'module':
            names, opened = self.lib.names(t[1])
            if n.attr not in names and not opened and not generated(self.lib, t[1], n.attr) and n.attr not in ('__dict__', '__name__', '__path__', '__file__', '__doc__', '__all__', '__version__'):
                self.report('attribute', n, f, n.attr, 'the module %s has no member %s' % (t[1].name, n.attr))
        elif k == 'ext' and t[1] in EXT:
            if n.attr not in EXT[t[1]] and t[1] + '.' + n.attr not in EXT:
                self.report('attribute', n, f, n.attr, 'the module %s has no member %s' % (t[1], n.attr))

    def call(self, n, f, guards):
        ty = self.typer(f)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format':
            s = const_str(n.func.value)
            if s is not None:
                self.strformat(n, s, f)
        t = ty.of(n.func)
        k = kind(t)
        fs = None
        if k == 'def':
            fs = [(t[1], 0)]
        elif k == 'bound':
            lst = t[1] if isinstance(t[1], tuple) else [t[1]]
            fs = [(x, 0 if x.is_static or x.name == '__new__' else 1) for x in lst]
        elif k == 'unbound':
            fs = [(t[1], 1 if t[1].is_classmethod else 0)]
        elif k == 'class':
            r = self.lib.prog.lookup(t[1], '__init__')
            new = self.lib.prog.lookup(t[1], '__new__')
            if r and r[0] == 'def' and not new:
                fs = [(r[1], 1)]
            elif not r and not new and not self.metaclassed(t[1]) and all(isinstance(b, ClassInfo) or b == 'object' for b in self.lib.prog.mro(t[1])) and (n.args or n.keywords):
                self.c.count('calls')
                self.report('call', n, f, t[1].name, 'the class %s takes no arguments' % t[1].name)
        if not fs and k is None and isinstance(n.func, ast.Attribute) and n.func.attr not in EXT['universe'] and n.func.attr not in self.lib.foreign:
            lst = self.lib.methods_named.get(n.func.attr)
            base = self.typer(f).of(n.func.value)
            if lst and kind(base) in (None, 'inst') and not self.data_attr(n.func.attr):
                fs = [(x, 0 if x.is_static or x.name == '__new__' else 1) for x in lst]
                fs += [(x, 0) for x in lst]      # called through the class
        if not fs:
            return
        self.c.count('calls')
        if '()' in guards:
            return
        why = None
        for fi, skip in fs:
            if not plain_decorators(fi):
                return
            why = accepts(fi, n, skip)
            if why is None:
                self.forwarded(n, f, fi, t)
                return
            twin = self.twin(fi)
            if twin is not None:
                w2 = accepts(twin, n, skip)
                if w2 is None:
                    return
        self.report('call', n, f, fs[-1][0].qualname, 'the call does not fit %s: %s' % (fs[-1][0].qualname, why))

    def forwarded(self, n, f, fi, t):
        """keyword arguments that a constructor hands on to that of its base class"""
        if fi.name != '__init__' or fi.cls is None or not any(p[3] == 'kw' for p in fi.params()):
            return
        if kind(t) == 'class':
            starts = [self.lib.prog.mro(t[1])]
        elif isinstance(n.func, ast.Attribute) and kind(self.typer(f).of(n.func.value)) == 'super':
            cls = self.typer(f).cls
            starts = []
            for k in [cls] + list(self.lib.prog.subclasses(cls)):
                mro = list(self.lib.prog.mro(k))
                if cls in mro:
                    starts.append(mro[mro.index(cls) + 1:])
        else:
            return
        for q in n.keywords:
            if q.arg is not None and starts and not any(self.lib.takes(m, q.arg) for m in starts):
                self.report('call', n, f, fi.qualname, 'no constructor of the base classes takes the argument %s' % q.arg)

    def data_attr(self, name):
        return any(name in st for st in self.lib.stores.values())

    def twin(self, fi):
        """the metaclass of nodes gives train, execute, ... the signature of _train, _execute, ..."""
        if fi.cls is None or fi.name.startswith('_'):
            return None
        return self.lib.prog.method(self.typer_cls(fi), '_' + fi.name)

    def typer_cls(self, fi):
        return fi.cls

    def metaclassed(self, c):
        return any(isinstance(k, ClassInfo) and any(isinstance(b, ast.Call) for b in k.node.bases) for k in self.lib.prog.mro(c))

    # -------------------------------------------------------------- formats
    def percent(self, n, f):
        s = const_str(n.left)
        if s is None:
            if kind(self.typer(f).of(n.left)) == 'str' and isinstance(n.left, ast.Name):
                vs = self.typer(f).plain.get(n.left.id) or []
                ss = [const_str(v) for v in vs]
                s = ss[0] if len(ss) == 1 else None
        if s is None:
            return
        self.c.count('formats')
        conv, names = conversions(s)
        text = s.strip()[:30]
        if conv is None:
            self.report('format', n, f, text, 'the format %r is not valid' % s)
            return
        if names:
            if isinstance(n.right, ast.Dict) and all(isinstance(k, ast.Constant) for k in n.right.keys):
                keys = [k.value for k in n.right.keys]
                for x in names:
                    if x not in keys:
                        self.report('format', n, f, text, 'the format needs a value %s' % x)
            return
        if isinstance(n.right, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in n.right.elts):
                return
            if len(n.right.elts) != len(conv):
                self.report('format', n, f, text, 'the format takes %d values, %d are given' % (len(conv), len(n.right.elts)))
                return
            vals = n.right.elts
        else:
            if isinstance(n.right, (ast.Constant, ast.JoinedStr, ast.BinOp, ast.List, ast.Compare)) or kind(self.typer(f).of(n.right)) in ('str', 'num'):
                if len(conv) != 1:
                    self.report('format', n, f, text, 'the format takes %d values, one is given' % len(conv))
                    return
            if len(conv) != 1:
                return
            vals = [n.right]
        for cv, v in zip(conv, vals):
            if cv in 'diouxXeEfFgG' and kind(self.typer(f).of(v)) in ('str', 'none'):
                self.report('format', n, f, text, 'the conversion %%%s gets a string' % cv)

    def strformat(self, n, s, f):
        import string
        self.c.count('formats')
        auto, used, kws = 0, set(), set()
        try:
            for _, field, spec, conv in string.Formatter().parse(s):
                if field is None:
                    continue
                base = field.split('.')[0].split('[')[0]
                if base == '':
                    used.add(auto)
                    auto += 1
                elif base.isdigit():
                    used.add(int(base))
                else:
                    kws.add(base)
        except ValueError as e:
            self.report('format', n, f, s[:30], 'the format is not valid: %s' % e)
            return
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        if used and max(used) >= len(n.args):
            self.report('format', n, f, s[:30], 'the format takes %d values, %d are given' % (max(used) + 1, len(n.args)))
        for k in kws:
            if k not in [x.arg for x in n.keywords]:
                self.report('format', n, f, s[:30], 'the format needs a value %s' % k)

    def add(self, n, f):
        ty = self.typer(f)
        ts = [kind(ty.of(n.left)), kind(ty.of(n.right))]
        if 'str' in ts:
            self.c.count('concatenations')
            other = ts[0] if ts[1] == 'str' else ts[1]
            if other in ('num', 'inst', 'class', 'def', 'module', 'none'):
                self.report('format', n, f, 'concatenation', 'a string is concatenated with something else: %s' % ast.unparse(n)[:80])

    # --------------------------------------------------------------- raises
    def raised(self, n, f):
        self.c.count('raises')
        e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
        t = self.typer(f).of(e)
        k = kind(t)
        if k == 'class' and not self.exception(t[1]):
            self.report('raise', n, f, t[1].name, '%s is not an exception' % t[1].name)
        elif k == 'builtin' and not is_builtin_exception(t[1]):
            self.report('raise', n, f, t[1], '%s is not an exception' % t[1])
        elif k in ('str', 'num', 'none', 'module', 'def') and not (k == 'def' and isinstance(n.exc, ast.Call)):
            self.report('raise', n, f, k, 'what is raised is not an exception')
        elif k == 'inst' and not isinstance(n.exc, ast.Call) and not self.exception(t.cls):
            self.report('raise', n, f, t.cls.name, 'what is raised is not an exception')

    def exception(self, c):
        for k in self.lib.prog.mro(c):
            if not isinstance(k, ClassInfo) and (is_builtin_exception(k) or k not in ('object', 'dict', 'list')):
                return True
        return False


def is_builtin_exception(nm):
    v = getattr(builtins, nm, None)
    return isinstance(v, type) and issubclass(v, BaseException)


def catches(h, names):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any((dotted(t) or '').rpartition('.')[2] in names for t in ts)


def hasattrs(fn):
    return frozenset(n.args[1].value for n in ast.walk(fn)
                     if isinstance(n, ast.Call) and dotted(n.func) in ('hasattr', 'getattr') and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant))


def generated(lib, m, name):
    return lib.dynamic(m) and (name.endswith('ScikitsLearnNode') or name.endswith('BiNode'))


def plain_decorators(fi):
    for d in fi.node.decorator_list:
        t = d.func if isinstance(d, ast.Call) else d
        nm = (dotted(t) or '?').rpartition('.')[2]
        if nm not in ('staticmethod', 'classmethod', 'extension_method', 'abstractmethod'):
            return False
    return True
