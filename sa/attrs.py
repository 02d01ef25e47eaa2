"""Definite assignment of the attributes of one object over its life.

Abstract interpretation of one class: the state maps each attribute (and each local variable) to a symbolic value and
remembers the branch conditions taken over those values, so that `if self.flag` in the constructor and in a later
operation agree.  Methods of the object are entered through the class's MRO, everything else is an unknown value.
States are merged after every statement when they have the same attributes.  Loops over unknown values run once (a second round reads no attribute that the first did not need).
"""
import ast

from .model import ClassInfo, dotted

MAXDEPTH = 14
GROUPS = 16
LOCALS = 12
# functions whose first two arguments are arrays
PRODUCTS = ('mult', 'matmult', 'dot', 'outer', 'solve', 'inv', 'inner', 'kron', 'take', 'compress', 'concatenate', 'vstack', 'hstack', 'enumerate', 'zip', 'iter', 'reversed')


def C(v):
    return ('c', type(v).__name__, v)


NONE, TRUE, FALSE = C(None), C(True), C(False)
SELF = ('self',)


def isc(v):
    return v[0] == 'c'


class St(object):
    __slots__ = ('attrs', 'frames', 'facts', 'gone')

    def __init__(self, attrs=None, frames=None, facts=None, gone=frozenset()):
        self.attrs, self.frames, self.facts, self.gone = attrs or {}, frames or (), facts or {}, gone

    def copy(self):
        return St(dict(self.attrs), tuple(self.frames), dict(self.facts), self.gone)

    def top(self):
        return self.frames[-1]

    def setlocal(self, name, v, depth=-1):
        s = self.copy()
        fs = list(s.frames)
        fs[depth] = dict(fs[depth])
        fs[depth][name] = v
        s.frames = tuple(fs)
        return s

    def setattr(self, name, v):
        s = self.copy()
        s.attrs[name] = v
        s.gone = s.gone - {name}
        return s

    def delattr(self, name):
        s = self.copy()
        s.attrs.pop(name, None)
        s.gone = s.gone | {name}
        return s

    def shape(self):
        """states of equal shape are merged: same attributes, same constants, same bound locals"""
        return (frozenset((k, v if keep(v) else None) for k, v in self.attrs.items()),
                tuple(frozenset((k, v if keep(v) and not (v[0] == 'c' and v[1] in ('int', 'float')) else None) for k, v in f.items()) for f in self.frames), self.gone)


def keep(v):
    return v[0] in ('c', 'seq', 'bm', 'fn', 'cls', 'self', 'super', 'p', 'new', 'ext', 'mod', 'def')


SOLID = ('seq', 'bm', 'fn', 'cls', 'self', 'new', 'def', 'mod', 'num', 'arr', 'int')


def common(vs):
    if all(v[0] == 'int' for v in vs):
        return 'int'
    return 'num' if all(v[0] in SOLID or (v[0] == 'c' and v != NONE) for v in vs) else 's'


class Report(object):
    def __init__(self, kind, name, fi, node, facts, chain):
        self.kind, self.name, self.fi, self.node, self.facts, self.chain = kind, name, fi, node, facts, chain


class Flow(object):
    """outcome of a block"""
    def __init__(self):
        self.next, self.ret, self.brk, self.cont, self.exc = [], [], [], [], []


class Attrs(object):
    def __init__(self, prog, ci, getter, setter, external=frozenset()):
        self.prog, self.ci, self.getter, self.setter, self.external = prog, ci, getter, setter, external
        self.uid = 0
        self.reports = {}
        self.fns = {}
        self.stack = []
        self.tolerant = 0
        self.reads = 0
        self.entered = set()
        self.byid = {}
        self.factories = {}
        self.gens = {}
        self.deref = True
        self.dynamic = False

    # ------------------------------------------------------------ values
    def fresh(self, tag='s'):
        self.uid += 1
        return (tag, self.uid)

    def merge(self, states):
        groups = {}
        for s in states:
            groups.setdefault(s.shape(), []).append(s)
        out = [self.join(g) for g in groups.values()]
        if len(out) > LOCALS:
            g2 = {}
            for s in out:
                g2.setdefault((s.shape()[0], s.gone, tuple(frozenset(f) for f in s.frames)), []).append(s)
            out = [self.join(g) for g in g2.values()]
            if len(out) > LOCALS:
                g3 = {}
                for s in out:
                    g3.setdefault((s.shape()[0], s.gone), []).append(s)
                out = [self.join(g) for g in g3.values()]
                if len(out) > 2 * GROUPS:
                    g4 = {}
                    for s in out:
                        g4.setdefault((frozenset((k, v == NONE) for k, v in s.attrs.items()), s.gone), []).append(s)
                    out = [self.join(g) for g in g4.values()]
                    if len(out) > 2 * GROUPS:
                        g4 = {}
                        for s in out:
                            g4.setdefault((frozenset(s.attrs), s.gone), []).append(s)
                        out = [self.join(g) for g in g4.values()]
        return out

    def join(self, g):
        if len(g) == 1:
            return g[0]
        r = g[0].copy()
        for k in list(r.attrs):
            vs = set(s.attrs.get(k) for s in g)
            if len(vs) > 1:
                r.attrs[k] = self.fresh(common(vs))
        fs = []
        for i, f in enumerate(r.frames):
            f = dict(f)
            for k in list(f):
                vs = set(s.frames[i].get(k) for s in g)
                if None in vs:
                    del f[k]
                elif len(vs) > 1:
                    f[k] = self.fresh(common(vs))
            fs.append(f)
        r.frames = tuple(fs)
        facts = dict(r.facts)
        for s in g[1:]:
            for k in list(facts):
                if s.facts.get(k) != facts[k]:
                    del facts[k]
        r.facts = facts
        return r

    # ------------------------------------------------------------ truth
    def truth(self, v, s):
        """True, False or None"""
        if isc(v):
            return bool(v[2])
        if v in s.facts:
            return s.facts[v]
        k = v[0]
        if k in ('bm', 'fn', 'cls', 'self', 'def', 'mod'):
            return True
        if k == 'seq':
            return bool(v[2]) if v[3] else (True if v[2] else None)
        if k == 'not':
            t = self.truth(v[1], s)
            return None if t is None else not t
        if k == 'is':
            a, b = v[1], v[2]
            if isc(a) and isc(b):
                return a == b
            for x, y in ((a, b), (b, a)):
                if isc(x) and y[0] in SOLID:
                    return False
                if x == NONE and self.truth(y, s) is True:
                    return False
                if x == NONE and any(f[0] in ('==', 'in') and f[1] == y and t and f[2] != NONE for f, t in s.facts.items()):
                    return False
        if k == '==':
            a, b = v[1], v[2]
            if isc(a) and isc(b):
                return a[2] == b[2]
            if a == b:
                return True
            for x, y in ((a, b), (b, a)):
                if isc(x):
                    for f, t in s.facts.items():
                        if f[0] == '==' and t and y in f[1:] and x not in f[1:] and any(isc(z) for z in f[1:]):
                            return False
                        if f[0] == 'is' and f[1] == y and isc(f[2]):
                            if t and f[2] != x:
                                return False
                            if not t and f[2] == x:
                                return False
        if k == 'in' and isinstance(v[2], tuple) and v[2][0] == 'seq' and all(isc(x) for x in v[2][2]):
            ts = [self.truth(eqt(v[1], x), s) for x in v[2][2]]
            if True in ts:
                return True
            if all(t is False for t in ts):
                return False
        if k == '<':
            if isc(v[1]) and isc(v[2]):
                try:
                    return v[1][2] < v[2][2]
                except TypeError:
                    return None
        return None

    def assume(self, v, want, s):
        """state in which v has the truth value, or None"""
        while v[0] == 'not':
            v, want = v[1], not want
        t = self.truth(v, s)
        if t is not None:
            return s if t == want else None
        s = s.copy()
        s.facts[v] = want
        if want and v[0] == 'is':
            for x, y in ((v[1], v[2]), (v[2], v[1])):
                if y == NONE:
                    s.facts[x] = False
        for f, val in s.facts.items():
            if f[0] == 'in' and val and f[2][0] == 'seq' and f[2][3] and f[2][2] and all(isc(x) for x in f[2][2]):
                if all(self.truth(eqt(f[1], x), s) is False for x in f[2][2]):
                    return None
        return s

    # ------------------------------------------------------------ reports
    def report(self, kind, name, fi, n, s):
        key = (kind, name, fi.qualname, n.lineno)
        if key not in self.reports:
            self.reports[key] = Report(kind, name, fi, n, dict(s.facts), [f.qualname for f in self.stack])

    # ------------------------------------------------------------ attribute of self
    def load_self(self, name, s, fi, n):
        """-> [(state, value)]"""
        self.reads += 1
        g = self.getter(self.ci, name)
        if g is not None:
            return self.enter(g, [SELF], {}, s, fi, n)
        if name in s.attrs:
            return [(s, s.attrs[name])]
        if name == '__class__':
            return [(s, ('cls', self.ci))]
        if name == '__dict__':
            return [(s, self.fresh())]
        if name not in s.gone or True:
            r = self.prog.lookup(self.ci, name)
            if r is not None:
                return [(s, self.class_value(r, name))]
        if name.startswith('__') or name in self.external or self.dynamic:
            return [(s, self.fresh())]
        for k in self.prog.mro(self.ci):
            if not isinstance(k, ClassInfo) and k not in ('object',) and not str(k).endswith('.object'):
                return [(s, self.fresh())]         # a base class outside of the library
        if not self.tolerant:
            self.report('missing', name, fi, n, s)
        return []

    def class_value(self, r, name):
        if r[0] == 'def':
            f = r[1]
            if f.is_static:
                return ('def', self.fn(f))
            if f.is_classmethod:
                return ('cm', self.fn(f))
            return ('bm', self.fn(f))
        e = r[1]
        if isinstance(e, ast.Constant):
            return C(e.value)
        if isinstance(e, ast.Name):
            r2 = self.prog.lookup(r[2], e.id)
            if r2 is not None and r2[0] == 'def':
                return self.class_value(r2, name)
        if isinstance(e, ast.Call) and dotted(e.func) == 'staticmethod' and e.args and isinstance(e.args[0], ast.Name):
            r2 = self.prog.lookup(r[2], e.args[0].id)
            if r2 is not None and r2[0] == 'def':
                return ('def', self.fn(r2[1]))
        return ('clsval', id(e))

    def generator(self, f):
        if f not in self.gens:
            self.gens[f] = f.is_generator
        return self.gens[f]

    def fn(self, f):
        self.fns[id(f)] = f
        return id(f)

    def has(self, name, s):
        if name in s.attrs:
            return True
        if self.getter(self.ci, name) is not None or self.prog.lookup(self.ci, name) is not None:
            return True
        if name in self.external or self.dynamic:
            return None
        return False

    # ------------------------------------------------------------ calls
    def enter(self, f, args, kw, s, caller, n, star=False, nframes=None):
        """run a library function; the callee may read names of the frames below (closures) -> [(state, value)]"""
        if len(self.stack) > MAXDEPTH or self.stack.count(f) > 1:
            return [(s, self.fresh())]
        frame = {}
        ps = f.params()
        pos = [p for p in ps if p[3] == 'pos']
        for p, a in zip(pos, args):
            frame[p[0]] = a
        rest = list(args[len(pos):])
        for p in ps:
            if p[3] == 'var':
                frame[p[0]] = ('seq', 'tuple', tuple(rest), not star) if not star or rest else self.fresh()
            elif p[3] == 'kw':
                frame[p[0]] = self.fresh()
            elif p[0] in kw:
                frame[p[0]] = kw[p[0]]
            elif p[0] not in frame:
                if p[1]:
                    d = p[2]
                    if star and False:
                        frame[p[0]] = self.fresh()
                    else:
                        frame[p[0]] = C(d.value) if isinstance(d, ast.Constant) else self.fresh()
                else:
                    frame[p[0]] = self.fresh()
        s2 = s.copy()
        s2.frames = tuple(s.frames) + (frame,)
        self.stack.append(f)
        self.entered.add(id(f))
        self.byid[id(f)] = f
        keep_t = self.tolerant
        try:
            if isinstance(f.node, ast.Lambda):
                out = self.eval(f.node.body, s2, f)
            else:
                fl = self.block(f.node.body, [s2], f)
                out = [(x, NONE) for x in fl.next] + fl.ret
                self.raised.extend(fl.exc) if self.raised is not None else None
        finally:
            self.stack.pop()
            self.tolerant = keep_t
        depth = len(s.frames)
        res = {}
        for x, v in out:
            y = x.copy()
            y.frames = x.frames[:depth]
            vk = v if keep(v) or v[0] in ('not', 'is', '==', 'in', '<', 'isinstance') else None
            res.setdefault((y.shape(), vk), []).append((y, v))
        fin = []
        for (sh, vk), l in res.items():
            vs = set(v for _, v in l)
            fin.append((self.join([y for y, _ in l]), l[0][1] if len(vs) == 1 else self.fresh()))
        if self.generator(f):
            return [(y, self.fresh()) for y, _ in fin]
        return fin

    raised = None

    def call_value(self, fv, args, kw, s, fi, n, star):
        k = fv[0]
        if k == 'bm':
            f = self.fns[fv[1]]
            if self.abstract(f):
                return []
            return self.enter(f, [SELF] + args, kw, s, fi, n, star)
        if k == 'cm':
            f = self.fns[fv[1]]
            return self.enter(f, [('cls', self.ci)] + args, kw, s, fi, n, star)
        if k == 'def':
            f = self.fns[fv[1]]
            if SELF in args or SELF in kw.values() or f.parent is not None or f.is_static:
                return self.enter(f, args, kw, s, fi, n, star)
            for a in list(args) + list(kw.values()):
                if a[0] in ('bm', 'fn'):
                    return self.after(self.call_value(a, [], {}, s, fi, n, True), s)
            if self.always_raises(f):
                return []
            return [(s, self.fresh())]
        if k == 'fn':
            f = self.fns[fv[1]]
            return self.enter(f, args, kw, s, fi, n, star)
        if k == 'cls':
            return [(s, self.fresh('new'))]
        if k == 'c' and fv[2] is None and self.deref:
            self.report('none', ast.unparse(n.func) if isinstance(n, ast.Call) else '?', fi, n, s)
            return []
        made = k == 'ext' and fv[1].rpartition('.')[2][:1].isupper()
        # handed on methods are called by the receiver
        cur = [s]
        for a in list(args) + list(kw.values()):
            if a[0] in ('bm', 'fn'):
                nxt = []
                for x in cur:
                    r = self.call_value(a, [], {}, x, fi, n, True)
                    nxt += [y for y, _ in r] or [x]
                cur = self.merge(nxt)
        return [(x, self.fresh('new' if made else 's')) for x in cur]

    def abstract(self, f):
        """a method without a body that every direct subclass replaces"""
        if isinstance(f.node, ast.Lambda) or f.cls is None or not f.name.isidentifier():
            return False
        if not all(isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) for st in f.body()):
            return False
        subs = [k for k in self.prog.classes if f.cls in self.prog.bases(k)]
        return bool(subs) and any(f.name in k.methods for k in subs) and f.cls is self.ci

    def after(self, res, s):
        return [(y, self.fresh()) for y, _ in res] or [(s, self.fresh())]

    def always_raises(self, f):
        if isinstance(f.node, ast.Lambda):
            return False
        for st in f.body():
            if isinstance(st, ast.Raise):
                return True
            if not isinstance(st, (ast.Expr, ast.Assign)):
                return False
        return False

    # ------------------------------------------------------------ names
    def name(self, nm, s, fi):
        frames = s.frames if fi.parent is not None else s.frames[-1:]
        for f in reversed(frames):
            if nm in f:
                return f[nm]
        if fi.cls is not None and getattr(fi.cls, 'parent_func', None):
            v = self.factory_name(fi.cls, nm)
            if v is not None:
                return v
        try:
            r = self.prog.resolve_in(fi.module, nm)
        except RecursionError:
            return self.fresh()
        if r[0] == 'class':
            return ('cls', r[1])
        if r[0] == 'def':
            return ('def', self.fn(r[1]))
        if r[0] == 'module':
            return ('mod', r[1].name)
        if r[0] == 'ext':
            return ('ext', r[1])
        return ('glob', fi.module.name, nm)

    def factory_name(self, cls, nm):
        """a name of the function that made the class, as called for the base of this class"""
        key = (id(cls.node), nm)
        if key not in self.factories:
            self.factories[key] = self.factory_value(cls, nm)
        return self.factories[key]

    def factory_value(self, cls, nm):
        from .model import functions_of
        fac = [f for f in functions_of(cls.module) if f.name == cls.parent_func and f.cls is None]
        if not fac:
            return None
        ps = fac[0].params()
        if nm not in [p[0] for p in ps]:
            return None
        for k in self.prog.mro(self.ci):
            for b in getattr(k, 'base_exprs', ()):
                call, m = b, k.module
                if not isinstance(b, ast.Call):
                    d = dotted(b)
                    mods = [m] + [x for x in self.prog.modules.values() if x is cls.module]
                    call = None
                    for x in mods:
                        for st in x.tree.body:
                            if isinstance(st, ast.Assign) and d and isinstance(st.targets[0], ast.Name) and st.targets[0].id == d.rpartition('.')[2] and isinstance(st.value, ast.Call):
                                call = call or st.value
                if call is None or (dotted(call.func) or '').rpartition('.')[2] != cls.parent_func:
                    continue
                vals = [C(a.value) if isinstance(a, ast.Constant) else self.fresh() for a in call.args]
                for i, p in enumerate(ps):
                    if p[0] == nm:
                        if p[3] == 'var':
                            return ('seq', 'tuple', tuple(vals[i:]), True)
                        return vals[i] if i < len(vals) else self.fresh()
        return None

    # ------------------------------------------------------------ expressions
    def eval(self, e, s, fi):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return m(e, s, fi)
        return self.generic(e, s, fi)

    def evals(self, es, s, fi):
        """-> [(state, [values])]"""
        cur = [(s, [])]
        for e in es:
            nxt = []
            for x, vs in cur:
                for y, v in self.eval(e, x, fi):
                    nxt.append((y, vs + [v]))
            if len(nxt) > 8:
                g = {}
                for y, vs in nxt:
                    g.setdefault((y.shape(), tuple(v if keep(v) else None for v in vs)), []).append((y, vs))
                nxt = [(self.join([y for y, _ in l]), l[0][1] if len(l) == 1 else [v if keep(v) else self.fresh() for v in l[0][1]]) for l in g.values()]
            cur = nxt
        return cur

    def generic(self, e, s, fi):
        subs = [c for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
        return [(y, self.fresh()) for y, _ in self.evals(subs, s, fi)]

    def e_Constant(self, e, s, fi):
        return [(s, C(e.value))]

    def e_Name(self, e, s, fi):
        return [(s, self.name(e.id, s, fi))]

    def e_NamedExpr(self, e, s, fi):
        return [(y.setlocal(e.target.id, v), v) for y, v in self.eval(e.value, s, fi)]

    def e_Attribute(self, e, s, fi):
        out = []
        for y, b in self.eval(e.value, s, fi):
            out += self.attr_of(b, e.attr, y, fi, e)
        return out

    def attr_of(self, b, name, s, fi, e):
        if b == SELF:
            return self.load_self(name, s, fi, e)
        if b[0] == 'super':
            r = None
            if b[1] is not None:
                r = self.prog.lookup(self.ci, name, after=b[1])
            return [(s, self.class_value(r, name) if r is not None else self.fresh())]
        if b[0] == 'cls':
            r = self.prog.lookup(b[1], name)
            if r is None:
                return [(s, self.fresh())]
            if r[0] == 'def':
                return [(s, ('def', self.fn(r[1])) if not r[1].is_classmethod else self.fresh())]
            return [(s, self.class_value(r, name))]
        if b == NONE and self.deref and not self.tolerant:
            self.report('none', ast.unparse(e.value) + '.' + name, fi, e, s)
            return []
        if b[0] == 'mod':
            r = self.prog.resolve_dotted(b[1] + '.' + name)
            if r[0] == 'class':
                return [(s, ('cls', r[1]))]
            if r[0] == 'def':
                return [(s, ('def', self.fn(r[1])))]
            if r[0] == 'module':
                return [(s, ('mod', r[1].name))]
            return [(s, ('ext', b[1] + '.' + name))]
        if b[0] == 'ext':
            return [(s, ('ext', b[1] + '.' + name))]
        if name in ('shape', 'ndim', 'dtype', 'size', 'T'):
            return [(s, ('num', b, name))]
        if b[0] in ('p', 's', 'a', 'new', 'arr'):
            return [(s, ('a', b, name))]
        return [(s, self.fresh())]

    def e_Subscript(self, e, s, fi):
        out = []
        for y, (b, i) in self.evals([e.value, e.slice], s, fi):
            if b == NONE and self.deref and not self.tolerant:
                self.report('none', ast.unparse(e.value), fi, e, y)
                continue
            if b[0] == 'seq' and b[3] and isc(i) and isinstance(i[2], int) and -len(b[2]) <= i[2] < len(b[2]):
                out.append((y, b[2][i[2]]))
            else:
                if b[0] == 'num' and b[2:] == ('shape',):
                    out.append((y, ('int', b, i)))
                else:
                    out.append((y, self.fresh('num' if b[0] in ('num', 'arr') else 's')))
        return out

    def e_Slice(self, e, s, fi):
        return self.generic(e, s, fi)

    def e_Tuple(self, e, s, fi):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.generic(e, s, fi)
        return [(y, ('seq', 'tuple', tuple(vs), True)) for y, vs in self.evals(e.elts, s, fi)]

    def e_List(self, e, s, fi):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.generic(e, s, fi)
        return [(y, ('seq', 'list', tuple(vs), bool(vs)) if vs else self.fresh('new')) for y, vs in self.evals(e.elts, s, fi)]

    def e_Dict(self, e, s, fi):
        return [(y, self.fresh('new')) for y, _ in self.evals([x for x in e.keys + e.values if x is not None], s, fi)]

    def e_Set(self, e, s, fi):
        return [(y, self.fresh('new')) for y, _ in self.evals(e.elts, s, fi)]

    def e_JoinedStr(self, e, s, fi):
        subs = [x.value for x in e.values if isinstance(x, ast.FormattedValue)]
        return [(y, self.fresh('num')) for y, _ in self.evals(subs, s, fi)]

    def e_Lambda(self, e, s, fi):
        from .model import FuncInfo
        key = ('lam', id(e))
        if key not in self.fns:
            self.fns[key] = FuncInfo(e, fi.module, None, fi)
        return [(s, ('fn', key))]

    def e_UnaryOp(self, e, s, fi):
        out = []
        for y, v in self.eval(e.operand, s, fi):
            if isinstance(e.op, ast.Not):
                t = self.truth(v, y)
                out.append((y, C(not t) if t is not None else ('not', v)))
            elif isinstance(e.op, ast.USub) and isc(v) and isinstance(v[2], (int, float)):
                out.append((y, C(-v[2])))
            else:
                out.append((y, self.fresh('num')))
        return out

    def e_BinOp(self, e, s, fi):
        out = []
        for y, (a, b) in self.evals([e.left, e.right], s, fi):
            if isc(a) and isc(b) and isinstance(a[2], (int, float)) and isinstance(b[2], (int, float)) and isinstance(e.op, (ast.Add, ast.Sub)):
                out.append((y, C(a[2] + b[2] if isinstance(e.op, ast.Add) else a[2] - b[2])))
                continue
            if isinstance(e.op, ast.Add) and a[0] == 'seq' and b[0] == 'seq' and a[1] == b[1]:
                out.append((y, ('seq', a[1], a[2] + b[2], a[3] and b[3])))
                continue
            if self.deref and not self.tolerant and (a == NONE or b == NONE) and not (isinstance(e.op, ast.Mod)):
                x = e.left if a == NONE else e.right
                self.report('none', ast.unparse(x), fi, e, y)
                continue
            out.append((y, self.fresh('num')))
        return out

    def e_BoolOp(self, e, s, fi):
        want = isinstance(e.op, ast.And)
        out = []
        cur = [s]
        for i, x in enumerate(e.values):
            nxt = []
            for y in cur:
                for z, v in self.eval(x, y, fi):
                    if i == len(e.values) - 1:
                        out.append((z, v))
                        continue
                    go, stop = self.assume(v, want, z), self.assume(v, not want, z)
                    if stop is not None:
                        out.append((stop, v if isc(v) else C(not want) if v[0] in ('not', 'is', '==', 'in', '<', 'isinstance') else v))
                    if go is not None:
                        nxt.append(go)
            cur = nxt
        return out

    def e_IfExp(self, e, s, fi):
        out = []
        for y, v in self.eval(e.test, s, fi):
            a, b = self.assume(v, True, y), self.assume(v, False, y)
            if a is not None:
                out += self.eval(e.body, a, fi)
            if b is not None:
                out += self.eval(e.orelse, b, fi)
        return out

    def e_Compare(self, e, s, fi):
        out = []
        for y, vs in self.evals([e.left] + e.comparators, s, fi):
            if len(vs) != 2:
                out.append((y, self.fresh('bool')))
                continue
            a, b = vs
            op = e.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)):
                t = ('is', a, b) if not isc(a) or isc(b) else ('is', b, a)
            elif isinstance(op, (ast.Eq, ast.NotEq)):
                t = eqt(a, b)
                if NONE in (a, b):
                    t = ('is', a, b) if b == NONE else ('is', b, a)
            elif isinstance(op, (ast.In, ast.NotIn)):
                t = ('in', a, b)
            elif isinstance(op, (ast.Lt, ast.GtE)):
                t = ('<', a, b)
            else:
                t = ('<', b, a)
            if isinstance(op, (ast.Lt, ast.GtE, ast.Gt, ast.LtE)) and self.deref and not self.tolerant and NONE in (a, b):
                self.report('none', ast.unparse(e.left if a == NONE else e.comparators[0]), fi, e, y)
                continue
            if any(x[0] == 's' and False for x in (a, b)):
                pass
            v = ('not', t) if isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn, ast.GtE, ast.LtE)) else t
            tv = self.truth(v, y)
            out.append((y, C(tv) if tv is not None else v))
        return out

    def comp(self, e, s, fi):
        cur = [s]
        states = [s]
        bound = []
        for g in e.generators:
            nxt = []
            for y in states:
                for z, v in self.eval(g.iter, y, fi):
                    if v == NONE and self.deref and not self.tolerant:
                        self.report('none', ast.unparse(g.iter), fi, e, z)
                        continue
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            bound.append((x.id, z.top().get(x.id)))
                            z = z.setlocal(x.id, self.fresh())
                    for w in self.conds(g.ifs, z, fi):
                        nxt.append(w)
            states = nxt
        elts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
        out = []
        for y in states:
            for z, _ in self.evals(elts, y, fi):
                fs = list(z.frames)
                f = dict(fs[-1])
                for nm, old in reversed(bound):
                    if old is None:
                        f.pop(nm, None)
                    else:
                        f[nm] = old
                fs[-1] = f
                z = z.copy()
                z.frames = tuple(fs)
                out.append(z)
        return [(y, self.fresh('new')) for y in self.merge(out)]

    def conds(self, tests, s, fi):
        cur = [s]
        for t in tests:
            nxt = []
            for y in cur:
                for z, v in self.eval(t, y, fi):
                    w = self.assume(v, True, z)
                    if w is not None:
                        nxt.append(w)
            cur = nxt
        return cur or [s]

    e_ListComp = e_SetComp = e_GeneratorExp = e_DictComp = comp

    def e_Yield(self, e, s, fi):
        return self.eval(e.value, s, fi) if e.value is not None else [(s, NONE)]

    def e_Starred(self, e, s, fi):
        return self.eval(e.value, s, fi)

    def e_Call(self, e, s, fi):
        d = dotted(e.func)
        if isinstance(e.func, ast.Name):
            r = self.builtin(e, s, fi)
            if r is not None:
                return r
        out = []
        star = any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords)
        product = d is not None and d.rpartition('.')[2] in PRODUCTS and self.deref
        for y, fv in self.eval(e.func, s, fi):
            for z, vs in self.evals(list(e.args) + [k.value for k in e.keywords], y, fi):
                args, kw = [], {}
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        if v[0] == 'seq' and v[3]:
                            args += list(v[2])
                    else:
                        args.append(v)
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is not None:
                        kw[k.arg] = v
                if product and NONE in args[:2] and not self.tolerant:
                    self.report('none', ast.unparse(e.args[args.index(NONE)]), fi, e, z)
                    continue
                out += self.call_value(fv, args, kw, z, fi, e, star)
        return out

    def builtin(self, e, s, fi):
        nm = e.func.id
        if any(nm in f for f in s.frames[-1:]):
            return None
        if nm == 'super':
            if e.args:
                r = self.eval(e.args[0], s, fi)
                v = r[0][1] if r else ('s', 0)
                if v[0] == 'cls':
                    return [(s, ('super', v[1]))]
                if fi.cls is not None and fi.cls.name == (dotted(e.args[0]) or '').rpartition('.')[2]:
                    return [(s, ('super', fi.cls))]
                return [(s, ('super', None))]
            return [(s, ('super', fi.cls))]
        if nm in ('hasattr', 'getattr', 'setattr', 'delattr') and e.args and len(e.args) >= 2:
            out = []
            for y, vs in self.evals(e.args, s, fi):
                b, a = vs[0], vs[1]
                if b != SELF or not (isc(a) and isinstance(a[2], str)):
                    if b == SELF and nm == 'setattr':
                        self.dynamic = True
                    out.append((y, self.fresh()))
                    continue
                if nm == 'hasattr':
                    h = self.has(a[2], y)
                    out.append((y, C(h) if h is not None else ('has', a[2])))
                elif nm == 'getattr':
                    if len(vs) > 2 and not self.has(a[2], y):
                        out.append((y, vs[2]))
                    else:
                        out += self.load_self(a[2], y, fi, e)
                elif nm == 'setattr':
                    out += [(z, NONE) for z in self.store_self(a[2], vs[2], y, fi, e)]
                else:
                    out.append((y.delattr(a[2]), NONE))
            return out
        if nm == 'len' and len(e.args) == 1:
            out = []
            for y, v in self.eval(e.args[0], s, fi):
                if v == NONE and self.deref and not self.tolerant:
                    self.report('none', ast.unparse(e.args[0]), fi, e, y)
                    continue
                out.append((y, C(len(v[2])) if v[0] == 'seq' and v[3] else self.fresh('int')))
            return out
        if nm in ('int', 'float', 'str', 'list', 'tuple', 'dict', 'set', 'sorted', 'range', 'sum', 'abs', 'round', 'zip', 'map'):
            if self.name(nm, s, fi)[0] not in ('fn',):
                r = []
                if nm == 'map':
                    return None
                for y, vs in self.evals(list(e.args) + [k.value for k in e.keywords], s, fi):
                    if (NONE in vs[:1] or nm == 'zip' and NONE in vs) and nm in ('zip', 'int', 'float', 'list', 'tuple', 'set', 'sorted', 'sum', 'abs', 'range') and self.deref and not self.tolerant:
                        self.report('none', ast.unparse(e.args[min(vs.index(NONE), len(e.args) - 1)]), fi, e, y)
                        continue
                    r.append((y, self.fresh('int' if nm == 'int' else 'num')))
                return r
        if nm == 'bool' and len(e.args) == 1:
            return self.eval(e.args[0], s, fi)
        if nm == 'isinstance' and len(e.args) == 2:
            cl = ast.unparse(e.args[1])
            return [(y, FALSE if vs[0] == NONE or ((vs[0][0] == 'int' or vs[0] == ('p', 'input_dim')) and cl in ('float', 'str', 'list', 'tuple', 'dict')) else ('isinstance', vs[0], cl)) for y, vs in self.evals(e.args, s, fi)]
        if nm == 'callable' and len(e.args) == 1:
            return [(y, ('isinstance', v, 'callable') if v != NONE else FALSE) for y, v in self.eval(e.args[0], s, fi)]
        return None

    # ------------------------------------------------------------ stores
    def store_self(self, name, v, s, fi, n):
        f = self.setter(self.ci, name)
        if f is not None:
            if v[0] in ('s', 'a'):                # a computed value handed to a property is taken to be a value
                v = self.fresh('num')
            return [y for y, _ in self.enter(f, [SELF, v], {}, s, fi, n)]
        return [s.setattr(name, v)]

    def assign(self, t, v, s, fi):
        if isinstance(t, ast.Name):
            return [s.setlocal(t.id, v)]
        if isinstance(t, ast.Attribute):
            out = []
            for y, b in self.eval(t.value, s, fi):
                if b == SELF:
                    out += self.store_self(t.attr, v, y, fi, t)
                elif b == NONE and self.deref and not self.tolerant:
                    self.report('none', ast.unparse(t.value), fi, t, y)
                else:
                    out.append(y)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for y, (b, i) in self.evals([t.value, t.slice], s, fi):
                if b == NONE and self.deref and not self.tolerant:
                    self.report('none', ast.unparse(t.value), fi, t, y)
                    continue
                y = self.touched(t.value, b, y, fi)
                out.append(y)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [s]
            exact = v[0] == 'seq' and v[3] and len(v[2]) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts)
            if v == NONE and self.deref and not self.tolerant:
                self.report('none', ast.unparse(t), fi, t, s)
                return []
            for i, x in enumerate(t.elts):
                w = v[2][i] if exact else self.fresh()
                cur = [z for y in cur for z in self.assign(x.value if isinstance(x, ast.Starred) else x, w, y, fi)]
            return cur
        return [s]

    def touched(self, e, b, s, fi):
        """the container named by an expression was changed in place: forget its value"""
        if b[0] == 'seq':
            if isinstance(e, ast.Name) and e.id in s.top():
                return s.setlocal(e.id, self.fresh('new'))
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and s.top().get(e.value.id) == SELF and e.attr in s.attrs:
                return s.setattr(e.attr, self.fresh('new'))
        return s

    # ------------------------------------------------------------ statements
    def block(self, body, states, fi):
        fl = Flow()
        cur = states
        for st in body:
            if not cur:
                break
            nxt = []
            for s in cur:
                r = self.stmt(st, s, fi)
                nxt += r.next
                fl.ret += r.ret
                fl.brk += r.brk
                fl.cont += r.cont
                fl.exc += r.exc
            cur = self.merge(nxt)
        fl.next = cur
        return fl

    def plain(self, states):
        fl = Flow()
        fl.next = states
        return fl

    def stmt(self, n, s, fi):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is not None:
            return m(n, s, fi)
        return self.plain([s])

    def s_Expr(self, n, s, fi):
        out = []
        for y, v in self.eval(n.value, s, fi):
            if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'update'):
                for z, b in self.eval(n.value.func.value, y, fi):
                    y = self.touched(n.value.func.value, b, y, fi)
                    break
            out.append(y)
        return self.plain(self.merge(out))

    def s_Assign(self, n, s, fi):
        out = []
        for y, v in self.eval(n.value, s, fi):
            cur = [y]
            for t in n.targets:
                cur = [z for x in cur for z in self.assign(t, v, x, fi)]
            out += cur
        return self.plain(out)

    def s_AnnAssign(self, n, s, fi):
        if n.value is None:
            return self.plain([s])
        return self.plain([z for y, v in self.eval(n.value, s, fi) for z in self.assign(n.target, v, y, fi)])

    def s_AugAssign(self, n, s, fi):
        t = n.target
        load = ast.copy_location(ast.Name(t.id, ast.Load()), t) if isinstance(t, ast.Name) else t
        out = []
        for y, (a, b) in self.evals([load, n.value], s, fi):
            if self.deref and not self.tolerant and NONE in (a, b):
                self.report('none', ast.unparse(t if a == NONE else n.value), fi, n, y)
                continue
            if isc(a) and isc(b) and isinstance(a[2], (int, float)) and isinstance(b[2], (int, float)) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(t, ast.Subscript):
                v = C(a[2] + b[2] if isinstance(n.op, ast.Add) else a[2] - b[2])
            else:
                v = self.fresh('num') if a[0] == 'num' else self.fresh()
            out += self.assign(t, v, y, fi)
        return self.plain(out)

    def s_Return(self, n, s, fi):
        fl = Flow()
        fl.ret = self.eval(n.value, s, fi) if n.value is not None else [(s, NONE)]
        return fl

    def s_Raise(self, n, s, fi):
        fl = Flow()
        cur = [s]
        if n.exc is not None:
            cur = [y for y, _ in self.eval(n.exc, s, fi)] or [s]
        fl.exc = cur
        return fl

    def s_Break(self, n, s, fi):
        fl = Flow()
        fl.brk = [s]
        return fl

    def s_Continue(self, n, s, fi):
        fl = Flow()
        fl.cont = [s]
        return fl

    def s_Assert(self, n, s, fi):
        out = []
        for y, v in self.eval(n.test, s, fi):
            z = self.assume(v, True, y)
            if z is not None:
                out.append(z)
        return self.plain(out)

    def s_Delete(self, n, s, fi):
        cur = [s]
        for t in n.targets:
            nxt = []
            for y in cur:
                if isinstance(t, ast.Attribute):
                    for z, b in self.eval(t.value, y, fi):
                        if b == SELF:
                            if t.attr not in z.attrs and not self.tolerant and t.attr not in self.external:
                                self.report('missing', t.attr, fi, t, z)
                                continue
                            nxt.append(z.delattr(t.attr))
                        else:
                            nxt.append(z)
                elif isinstance(t, ast.Subscript):
                    for z, _ in self.evals([t.value, t.slice], y, fi):
                        nxt.append(z)
                else:
                    nxt.append(y)
            cur = nxt
        return self.plain(cur)

    def s_If(self, n, s, fi):
        fl = Flow()
        a, b = [], []
        for y, v in self.eval(n.test, s, fi):
            t, f = self.assume(v, True, y), self.assume(v, False, y)
            if t is not None:
                a.append(t)
            if f is not None:
                b.append(f)
        for states, body in ((a, n.body), (b, n.orelse)):
            if states:
                r = self.block(body, self.merge(states), fi)
                fl.next += r.next
                fl.ret += r.ret
                fl.brk += r.brk
                fl.cont += r.cont
                fl.exc += r.exc
        return fl

    def s_For(self, n, s, fi):
        fl = Flow()
        for y, it in self.eval(n.iter, s, fi):
            if it == NONE and self.deref and not self.tolerant:
                self.report('none', ast.unparse(n.iter), fi, n, y)
                continue
            if it[0] == 'seq' and it[3] and len(it[2]) <= 8:
                items = list(it[2])
            else:
                items = None
            cur, brk = [y], []
            if items is None:
                for rnd in range(1):
                    st = []
                    for x in cur:
                        st += self.assign(n.target, self.fresh(), x, fi)
                    r = self.block(n.body, self.merge(st), fi)
                    fl.ret += r.ret
                    fl.exc += r.exc
                    brk += r.brk
                    nxt = r.next + r.cont
                    cur = self.merge(nxt if rnd == 0 else cur + nxt)
            else:
                for v in items:
                    st = []
                    for x in cur:
                        st += self.assign(n.target, v, x, fi)
                    r = self.block(n.body, self.merge(st), fi)
                    fl.ret += r.ret
                    fl.exc += r.exc
                    brk += r.brk
                    cur = self.merge(r.next + r.cont)
            if n.orelse and cur:
                r = self.block(n.orelse, cur, fi)
                fl.ret += r.ret
                fl.exc += r.exc
                fl.brk += r.brk
                fl.cont += r.cont
                cur = r.next
            fl.next += cur + brk
        fl.next = self.merge(fl.next)
        return fl

    def s_While(self, n, s, fi):
        """one round; further rounds only while the condition is known to hold"""
        fl = Flow()
        cur, done = [s], []
        for rnd in range(4):
            enter, open_ = [], []
            for y in cur:
                for z, v in self.eval(n.test, y, fi):
                    t, f = self.assume(v, True, z), self.assume(v, False, z)
                    if t is not None and f is not None and rnd:
                        open_.append(z)
                        continue
                    if t is not None:
                        enter.append(t)
                    if f is not None and (rnd or t is None):
                        done.append(f)
            done += open_
            if not enter:
                break
            r = self.block(n.body, self.merge(enter), fi)
            fl.ret += r.ret
            fl.exc += r.exc
            done += r.brk
            cur = self.merge(r.next + r.cont)
            if not cur:
                break
        if not done:
            done = cur
        fl.next = self.merge(done)
        return fl

    def s_Try(self, n, s, fi):
        fl = Flow()
        tol = any(h.type is None or any(x in ast.unparse(h.type) for x in ('AttributeError', 'Exception')) for h in n.handlers)
        if tol:
            self.tolerant += 1
        before = self.raised
        self.raised = []
        r = self.block(n.body, [s], fi)
        inner = self.raised
        self.raised = before
        if tol:
            self.tolerant -= 1
        nxt = r.next
        if n.orelse and nxt:
            r2 = self.block(n.orelse, nxt, fi)
            nxt = r2.next
            for k in ('ret', 'brk', 'cont', 'exc'):
                getattr(fl, k).extend(getattr(r2, k))
        excs = [s]
        if n.handlers:
            for h in n.handlers:
                st = self.merge([x.setlocal(h.name, self.fresh()) if h.name else x for x in excs])
                r3 = self.block(h.body, st, fi)
                nxt = nxt + r3.next
                for k in ('ret', 'brk', 'cont', 'exc'):
                    getattr(fl, k).extend(getattr(r3, k))
        fl.ret += r.ret
        fl.brk += r.brk
        fl.cont += r.cont
        if not n.handlers:
            fl.exc += r.exc
        if n.finalbody and nxt:
            r4 = self.block(n.finalbody, self.merge(nxt), fi)
            nxt = r4.next
            for k in ('ret', 'brk', 'cont', 'exc'):
                getattr(fl, k).extend(getattr(r4, k))
        fl.next = self.merge(nxt)
        return fl

    def s_With(self, n, s, fi):
        cur = [s]
        for it in n.items:
            nxt = []
            for y in cur:
                for z, v in self.eval(it.context_expr, y, fi):
                    nxt += self.assign(it.optional_vars, self.fresh(), z, fi) if it.optional_vars is not None else [z]
            cur = nxt
        return self.block(n.body, cur, fi)

    def s_FunctionDef(self, n, s, fi):
        from .model import FuncInfo
        key = ('def', id(n))
        if key not in self.fns:
            self.fns[key] = FuncInfo(n, fi.module, None, fi)
        return self.plain([s.setlocal(n.name, ('fn', key))])


def eqt(a, b):
    return ('==', a, b) if not isc(a) or isc(b) else ('==', b, a)
