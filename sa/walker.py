"""Path-sensitive abstract walker over the syntax tree.

Every path of an entry function is followed with a small abstract state
(locals, fields of abstract objects, branch literals already taken, an event
trace).  Calls to functions of the analysed program are followed into their
bodies (through the class's MRO for methods); everything else is an opaque
operation that returns an uninterpreted term and may be given a "may raise"
outcome by the policy.  Loops over unknown collections are followed for 0..K
rounds.  No solver: a branch literal is decided by constant folding, by linear
normal forms, or by an identical literal taken earlier on the path; otherwise
both sides are followed.
"""
import ast
import itertools

from .model import (AnalysisError, ClassInfo, FuncInfo, dotted, canon_ext,
                    walk_scope)

MAXPATHS = 60000


class PathLimit(AnalysisError):
    pass


# ------------------------------------------------------------------ values
class V(object):
    __slots__ = ('k', '_h')

    def __init__(self, k):
        self.k = k
        self._h = hash(k)

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and self.k == o.k)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)

    @property
    def tag(self):
        return self.k[0]


def Const(c):
    # distinguish True/1 and 1.0/1
    return V(('const', type(c).__name__, c))


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


def Sym(name):
    return V(('sym', name))


def Attr(b, n):
    return V(('attr', b, n))


def Item(b, i):
    return V(('item', b, i))


def Op(op, *args):
    return V(('op', op) + tuple(args))


def Tup(items):
    return V(('tup',) + tuple(items))


def Ref(i):
    return V(('ref', i))


def Call(callee, args, kwargs, uid):
    return V(('call', callee, tuple(args), tuple(sorted(kwargs.items(), key=lambda kv: str(kv[0]))), uid))


def is_const(v, c=None):
    if v.tag != 'const':
        return False
    if c is None:
        return True
    return v.k[2] == c and v.k[1] == type(c).__name__


def cval(v):
    return v.k[2]


class FnV(object):
    """wrapper so that FuncInfo etc. can be put in V keys (identity hashed)"""


def Func(fi, env=None, selfv=None, after=None):
    return V(('func', fi, env, selfv))


def ClassV(ci):
    return V(('class', ci))


def ModV(m):
    return V(('module', m))


def Ext(path):
    return V(('ext', path))


def Super(ci, selfv):
    return V(('super', ci, selfv))


def show(v, depth=0):
    if not isinstance(v, V):
        return repr(v)
    t = v.k[0]
    if depth > 6:
        return '...'
    d = depth + 1
    if t == 'const':
        return repr(v.k[2])
    if t == 'sym':
        return v.k[1]
    if t == 'attr':
        return '%s.%s' % (show(v.k[1], d), v.k[2])
    if t == 'item':
        return '%s[%s]' % (show(v.k[1], d), show(v.k[2], d))
    if t == 'op':
        if len(v.k) == 4:
            return '(%s %s %s)' % (show(v.k[2], d), v.k[1], show(v.k[3], d))
        return '%s(%s)' % (v.k[1], ', '.join(show(x, d) for x in v.k[2:]))
    if t == 'tup':
        return '(%s)' % ', '.join(show(x, d) for x in v.k[1:])
    if t == 'ref':
        return '#%s' % (v.k[1],)
    if t == 'call':
        return '%s(%s)' % (show(v.k[1], d), ', '.join([show(x, d) for x in v.k[2]] +
                                                       ['%s=%s' % (a, show(b, d)) for a, b in v.k[3]]))
    if t == 'func':
        return v.k[1].qualname
    if t == 'class':
        return v.k[1].name
    if t == 'module':
        return v.k[1].name
    if t == 'ext':
        return v.k[1]
    if t == 'lin':
        return ' + '.join(['%s%s' % ('' if c == 1 else '%s*' % c, show(x, d)) for x, c in v.k[1]] + ([str(v.k[2])] if v.k[2] else []))
    if t == 'slice':
        return ':'.join('' if is_const(x, None) and cval(x) is None else show(x, d) for x in v.k[1:])
    return '<%s>' % t


# linear integer terms ------------------------------------------------------
def lin_of(v):
    """(dict term->coef, const) or None"""
    if v.tag == 'const':
        if isinstance(cval(v), bool) or not isinstance(cval(v), (int, float)):
            return None
        return {}, cval(v)
    if v.tag == 'lin':
        return dict(v.k[1]), v.k[2]
    if v.tag in ('sym', 'attr', 'item', 'call'):
        return {v: 1}, 0
    if v.tag == 'op' and v.k[1] in ('len', '*', '//', '%'):
        return {v: 1}, 0
    return None


def mk_lin(d, c):
    d = {k: n for k, n in d.items() if n != 0}
    if not d:
        return Const(c)
    if c == 0 and len(d) == 1:
        (k, n), = d.items()
        if n == 1:
            return k
    return V(('lin', tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))), c))


def lin_add(a, b, sign=1):
    la, lb = lin_of(a), lin_of(b)
    if la is None or lb is None:
        return None
    d = dict(la[0])
    for k, n in lb[0].items():
        d[k] = d.get(k, 0) + sign * n
    return mk_lin(d, la[1] + sign * lb[1])


# ------------------------------------------------------------------ heap
class HObj(object):
    """abstract instance"""
    __slots__ = ('cls', 'fields', 'name')

    def __init__(self, cls, fields=None, name=None):
        self.cls = cls
        self.fields = fields or {}
        self.name = name

    def copy(self):
        return HObj(self.cls, dict(self.fields), self.name)


class HList(object):
    """list with known items; `open` True when unknown extra items may exist"""
    __slots__ = ('items', 'open', 'kind')

    def __init__(self, items=(), open_=False, kind='list'):
        self.items = tuple(items)
        self.open = open_
        self.kind = kind

    def copy(self):
        return HList(self.items, self.open, self.kind)


class HDict(object):
    __slots__ = ('items', 'open')

    def __init__(self, items=(), open_=False):
        self.items = tuple(items)    # pairs
        self.open = open_

    def copy(self):
        return HDict(self.items, self.open)

    def get(self, k):
        for a, b in self.items:
            if a == k:
                return b
        return None

    def set(self, k, v):
        out = [(a, b) for a, b in self.items if a != k]
        out.append((k, v))
        self.items = tuple(out)


class HEnv(object):
    __slots__ = ('vars', 'parent', 'fi', 'globals_', 'nonlocals')

    def __init__(self, parent, fi):
        self.vars = {}
        self.parent = parent
        self.fi = fi
        self.globals_ = frozenset()
        self.nonlocals = frozenset()

    def copy(self):
        e = HEnv(self.parent, self.fi)
        e.vars = dict(self.vars)
        e.globals_ = self.globals_
        e.nonlocals = self.nonlocals
        return e


class Event(object):
    __slots__ = ('kind', 'data', 'node', 'fi', 'facts')

    def __init__(self, kind, data, node, fi):
        self.kind = kind
        self.data = data
        self.node = node
        self.fi = fi

    def loc(self):
        if self.fi is None:
            return '?'
        return '%s:%d' % (self.fi.module.relpath, getattr(self.node, 'lineno', 0) or 0)

    def __repr__(self):
        return '%s(%s)@%s' % (self.kind, ', '.join('%s=%s' % (k, show(x) if isinstance(x, V) else x)
                                                   for k, x in self.data.items()), self.loc())

    def __getattr__(self, n):
        try:
            return self.data[n]
        except KeyError:
            raise AttributeError(n)


class State(object):
    __slots__ = ('heap', 'facts', 'trace', 'globals', 'nextid', 'stack', 'notes')

    def __init__(self):
        self.heap = {}
        self.facts = {}
        self.trace = ()
        self.globals = {}
        self.nextid = 0
        self.stack = ()      # call stack of (FuncInfo, call node)
        self.notes = {}

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.globals = dict(self.globals)
        s.nextid = self.nextid
        s.stack = self.stack
        s.notes = dict(self.notes)
        return s

    def alloc(self, obj):
        i = self.nextid
        self.nextid += 1
        self.heap[i] = obj
        return Ref(i)

    def mut(self, ref):
        """copy-on-write access"""
        o = self.heap[ref.k[1]].copy()
        self.heap[ref.k[1]] = o
        return o

    def obj(self, v):
        if v.tag == 'ref':
            return self.heap.get(v.k[1])
        return None

    def add_event(self, kind, node, fi, **data):
        self.trace = self.trace + (Event(kind, data, node, fi),)

    def events(self, kind=None):
        return [e for e in self.trace if kind is None or e.kind == kind]


# outcome kinds
NORMAL, RETURN, RAISE, BREAK, CONTINUE = 'normal', 'return', 'raise', 'break', 'continue'


class Exc(object):
    """abstract exception: cls is ClassInfo, a builtin name, or 'Any' (unknown Exception)"""

    def __init__(self, cls, value=None, node=None, fi=None, origin=None):
        self.cls = cls
        self.value = value
        self.node = node
        self.fi = fi
        self.origin = origin     # event/term that raised, for 'Any'

    @property
    def name(self):
        return self.cls.name if isinstance(self.cls, ClassInfo) else self.cls

    def __repr__(self):
        return 'Exc(%s from %s)' % (self.name, self.origin)


BUILTIN_EXC_BASES = {
    'Exception': ['BaseException'], 'BaseException': [],
    'KeyboardInterrupt': ['BaseException'], 'SystemExit': ['BaseException'],
    'GeneratorExit': ['BaseException'],
    'ArithmeticError': ['Exception'], 'ZeroDivisionError': ['ArithmeticError', 'Exception'],
    'LookupError': ['Exception'], 'KeyError': ['LookupError', 'Exception'],
    'IndexError': ['LookupError', 'Exception'], 'StopIteration': ['Exception'],
    'ValueError': ['Exception'], 'TypeError': ['Exception'], 'AttributeError': ['Exception'],
    'NotImplementedError': ['RuntimeError', 'Exception'], 'RuntimeError': ['Exception'],
    'ImportError': ['Exception'], 'OSError': ['Exception'], 'IOError': ['OSError', 'Exception'],
    'EnvironmentError': ['OSError', 'Exception'], 'NameError': ['Exception'],
    'AssertionError': ['Exception'], 'UserWarning': ['Exception'], 'Warning': ['Exception'],
    'EOFError': ['Exception'],
}
BUILTIN_NAMES = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__) | {'basestring', 'unicode', 'xrange', 'reduce'}


class Policy(object):
    """Override to specialise the walk."""
    loop_bound = 2
    while_bound = 2
    max_depth = 14
    max_paths = MAXPATHS
    cache = True            # decisions of the policy hold for the rest of the path

    def opaque(self, walker, fi, selfv, st):
        """True: do not follow this program function (record a call event only)"""
        return False

    def intercept(self, walker, callee, args, kwargs, node, fi, st):
        """Return list of (value|Exc, state) to override a call, or None"""
        return None

    def may_raise(self, walker, callee, args, kwargs, node, fi, st):
        """exceptions an opaque call may raise: iterable of names/'Any'"""
        return ()

    def decide(self, walker, term, st):
        """decide a boolean term: True/False/None"""
        return None

    def load_field(self, walker, ref, obj, name, st):
        """value for an unset field of an abstract object, or None for default"""
        return None

    def load_term(self, walker, b, name, st):
        """value for an attribute of a value that is no object of the program, or None"""
        return None

    def load_method(self, walker, ref, obj, name, st):
        """value for a class attribute of an abstract object, or None for the program's own"""
        return None

    def load_global(self, walker, module, name, st):
        return None

    def on_store(self, walker, base, name, value, node, fi, st):
        pass

    def iter_object(self, walker, v, node, fi, st):
        """what iter(v) gives: list of (value, state), or None for the default"""
        return None

    def iter_values(self, walker, v, node, fi, st):
        """concrete list of values an iterable yields, or None"""
        return None


STR_METHODS = ('find', 'rfind', 'index', 'split', 'rsplit', 'partition', 'rpartition', 'startswith', 'endswith', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'count',
               'isdigit', 'title', 'capitalize', 'splitlines')
PURE_BUILTINS = {'len', 'isinstance', 'issubclass', 'hasattr', 'getattr', 'type', 'str', 'repr', 'int', 'float', 'bool',
                 'abs', 'min', 'max', 'sum', 'range', 'xrange', 'list', 'tuple', 'dict', 'set', 'frozenset', 'enumerate', 'zip',
                 'reversed', 'sorted', 'any', 'all', 'iter', 'next', 'print', 'callable', 'id', 'hash', 'map', 'filter', 'round',
                 'super', 'vars', 'dir', 'format', 'slice', 'object', 'setattr', 'delattr', 'open', 'divmod', 'property'}


class Walker(object):
    def __init__(self, prog, policy=None):
        self.prog = prog
        self.policy = policy or Policy()
        self.uid = itertools.count()
        self.npaths = 0
        self.visited = set()       # FuncInfo followed
        self.opaque_calls = set()
        self.bound_hits = 0

    # ----------------------------------------------------------- entry points
    def new_state(self):
        return State()

    def new_obj(self, st, ci, name='self', fields=None):
        return st.alloc(HObj(ci, dict(fields or {}), name))

    def run_method(self, st, selfv, name, args=(), kwargs=None):
        """-> list of (('return', V)|('raise', Exc), State)"""
        o = st.obj(selfv)
        pm = self.policy.load_method(self, selfv, o, name, st)
        if pm is not None and pm.tag == 'func':
            return self.run_func(st, pm.k[1], args, kwargs, selfv=pm.k[3], env=pm.k[2])
        fi = self.prog.method(o.cls, name)
        if fi is None:
            raise AnalysisError('anchor method %s.%s not found' % (o.cls.name, name))
        return self.run_func(st, fi, args, kwargs, selfv)

    def run_func(self, st, fi, args=(), kwargs=None, selfv=None, env=None):
        out = []
        for v, s in self.call_func(fi, env, selfv, list(args), dict(kwargs or {}), None, None, st):
            if isinstance(v, Exc):
                out.append((RAISE, v, s))
            else:
                out.append((RETURN, v, s))
        return out

    # -------------------------------------------------------------- calls
    def bind(self, fi, selfv, args, kwargs, st, env):
        """bind arguments; returns (vars dict) or Exc"""
        a = fi.node.args
        pos = list(getattr(a, 'posonlyargs', [])) + list(a.args)
        vals = list(args)
        if selfv is not None and not fi.is_static:
            vals = [selfv] + vals
        out = {}
        extra_pos_unknown = None
        # star-args marker
        flat = []
        for v in vals:
            if v.tag == 'starargs':
                inner = v.k[1]
                if inner.tag == 'tup':
                    flat.extend(inner.k[1:])
                else:
                    extra_pos_unknown = inner
            else:
                flat.append(v)
        vals = flat
        names = [p.arg for p in pos]
        for nme, v in zip(names, vals):
            out[nme] = v
        rest = vals[len(names):]
        if a.vararg:
            if extra_pos_unknown is not None and not rest:
                # f(*args) with unknown args: remaining positional parameters come from it
                out[a.vararg.arg] = extra_pos_unknown
                extra = None
            else:
                out[a.vararg.arg] = Tup(rest)
        elif rest:
            return Exc('TypeError', origin='too many arguments for %s' % fi.qualname)
        kw = dict(kwargs)
        star_kw = kw.pop('**', None)
        known = set(names) | {p.arg for p in a.kwonlyargs}
        kwrest = {}
        for k, v in kw.items():
            if k in known:
                if k in out:
                    return Exc('TypeError', origin='duplicate argument %s for %s' % (k, fi.qualname))
                out[k] = v
            else:
                kwrest[k] = v
        if a.kwarg:
            if star_kw is not None and not kwrest:
                out[a.kwarg.arg] = star_kw
            else:
                out[a.kwarg.arg] = st.alloc(HDict([(Const(k), v) for k, v in kwrest.items()], star_kw is not None))
        elif kwrest:
            return Exc('TypeError', origin='unexpected keyword %s for %s' % (sorted(kwrest), fi.qualname))
        defaults = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for p, d in list(zip(pos, defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if p.arg not in out:
                if star_kw is not None:
                    out[p.arg] = Item(star_kw, Const(p.arg)) if d is None else Call(Ext('dict.get'), [star_kw, Const(p.arg)], {}, 0)
                elif extra_pos_unknown is not None and p in pos:
                    out[p.arg] = Item(extra_pos_unknown, Const(pos.index(p) - len(vals)))
                elif d is not None:
                    out[p.arg] = self.static_value(d, fi)
                else:
                    return Exc('TypeError', origin='missing argument %s for %s' % (p.arg, fi.qualname))
        return out

    def static_value(self, d, fi):
        if isinstance(d, ast.Constant):
            return Const(d.value)
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
            return Const(-d.operand.value)
        if isinstance(d, ast.Tuple):
            return Tup([self.static_value(e, fi) for e in d.elts])
        n = dotted(d)
        if n:
            return self.from_resolution(self.prog.resolve_in(fi.module, n), n)
        return Sym('default:%s' % ast.unparse(d))

    def call_func(self, fi, env, selfv, args, kwargs, node, caller, st):
        """follow a program function -> list of (V|Exc, State)"""
        if len(st.stack) >= self.policy.max_depth or \
                sum(1 for f, _ in st.stack if f is fi or f.node is fi.node) >= 2:
            st = st.copy()
            st.add_event('deep', node, caller or fi, callee=Func(fi))
            return [(Call(Func(fi), args, kwargs, next(self.uid)), st)]
        self.visited.add(fi)
        st = st.copy()
        b = self.bind(fi, selfv, args, kwargs, st, env)
        if isinstance(b, Exc):
            b.node, b.fi = node, caller
            return [(b, st)]
        if fi.is_generator:
            st.add_event('call', node, caller or fi, callee=Func(fi, env, selfv), args=tuple(args), kwargs=tuple(kwargs.items()))
            return [(Call(Func(fi), args, kwargs, next(self.uid)), st)]
        e = HEnv(env, fi)
        e.vars = b
        g, nl = set(), set()
        for n in walk_scope(fi.node):
            if isinstance(n, ast.Global):
                g.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                nl.update(n.names)
        e.globals_ = frozenset(g)
        e.nonlocals = frozenset(nl)
        ev = st.alloc(e)
        st.stack = st.stack + ((fi, node),)
        st.add_event('enter', node, caller or fi, callee=fi, selfv=selfv)
        ctx = Ctx(fi, ev)
        out = []
        for kind, val, s in self.block(fi.body(), ctx, st):
            s.stack = s.stack[:-1]
            if kind == RAISE:
                out.append((val, s))
            elif kind == RETURN:
                s.add_event('leave', node, caller or fi, callee=fi)
                out.append((val, s))
            else:
                s.add_event('leave', node, caller or fi, callee=fi)
                out.append((NONE, s))
        self.npaths += len(out)
        if len(out) > self.policy.max_paths:
            raise PathLimit('too many paths in %s' % fi.qualname)
        return out

    # ------------------------------------------------------------ statements
    def block(self, stmts, ctx, st):
        states = [st]
        done = []
        for stmt in stmts:
            nxt = []
            for s in states:
                for o in self.stmt(stmt, ctx, s):
                    if o[0] == NORMAL:
                        nxt.append(o[2])
                    else:
                        done.append(o)
            states = nxt
            if len(states) + len(done) > self.policy.max_paths:
                raise PathLimit('too many paths in %s' % ctx.fi.qualname)
            if not states:
                break
        return done + [(NORMAL, None, s) for s in states]

    def stmt(self, n, ctx, st):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            # unknown statement: evaluate sub-expressions for their effects
            outs = [(NORMAL, None, st)]
            return outs
        return m(n, ctx, st)

    def _ev(self, expr, ctx, st, cont):
        """evaluate then continue: cont(value, state) -> outcomes"""
        out = []
        for v, s in self.eval(expr, ctx, st):
            if isinstance(v, Exc):
                out.append((RAISE, v, s))
            else:
                out.extend(cont(v, s))
        return out

    def s_Pass(self, n, ctx, st):
        return [(NORMAL, None, st)]

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, n, ctx, st):
        st = st.copy()
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            path = a.name if a.asname else a.name.split('.')[0]
            self.set_name(nm, self.from_resolution(self.prog.resolve_dotted(path), path), ctx, st, n)
        return [(NORMAL, None, st)]

    def s_ImportFrom(self, n, ctx, st):
        st = st.copy()
        base = ctx.fi.module.resolve_from(n)
        for a in n.names:
            path = base + '.' + a.name
            self.set_name(a.asname or a.name, self.from_resolution(self.prog.resolve_dotted(path), path), ctx, st, n)
        return [(NORMAL, None, st)]

    def s_Expr(self, n, ctx, st):
        if isinstance(n.value, ast.Constant):
            return [(NORMAL, None, st)]
        return self._ev(n.value, ctx, st, lambda v, s: [(NORMAL, None, s)])

    def s_Return(self, n, ctx, st):
        if n.value is None:
            return [(RETURN, NONE, st)]
        return self._ev(n.value, ctx, st, lambda v, s: [(RETURN, v, s)])

    def s_Break(self, n, ctx, st):
        return [(BREAK, None, st)]

    def s_Continue(self, n, ctx, st):
        return [(CONTINUE, None, st)]

    def s_Assert(self, n, ctx, st):
        out = []
        for t, s in self.cond(n.test, ctx, st):
            if isinstance(t, Exc):
                out.append((RAISE, t, s))
            elif t:
                out.append((NORMAL, None, s))
            else:
                out.append((RAISE, Exc('AssertionError', node=n, fi=ctx.fi), s))
        return out

    def s_FunctionDef(self, n, ctx, st):
        st = st.copy()
        fi = FuncInfo(n, ctx.fi.module, None, ctx.fi)
        fi.owner_cls = ctx.owner_cls()
        v = Func(_intern_func(fi), ctx.env, None)
        if fi.decorators:
            v2 = v
            for d in reversed(n.decorator_list):
                st.add_event('decorate', n, ctx.fi, func=v, deco=d)
            v = v2
        self.set_name(n.name, v, ctx, st, n)
        return [(NORMAL, None, st)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, ctx, st):
        st = st.copy()
        ci = None
        for c in self.prog.classes:
            if c.node is n:
                ci = c
        if ci is None:
            ci = ClassInfo(n, ctx.fi.module, ctx.fi.name)
        self.set_name(n.name, ClassV(ci), ctx, st, n)
        return [(NORMAL, None, st)]

    def s_Assign(self, n, ctx, st):
        def cont(v, s):
            states = [(None, s)]
            for t in n.targets:
                nxt = []
                for _, s1 in states:
                    nxt.extend(self.assign(t, v, ctx, s1, n))
                bad = [(RAISE, e, s1) for e, s1 in nxt if isinstance(e, Exc)]
                states = [(e, s1) for e, s1 in nxt if not isinstance(e, Exc)]
                if bad:
                    return bad + [(NORMAL, None, s1) for _, s1 in states]
            return [(NORMAL, None, s1) for _, s1 in states]
        return self._ev(n.value, ctx, st, cont)

    def s_AnnAssign(self, n, ctx, st):
        if n.value is None:
            return [(NORMAL, None, st)]
        return self._ev(n.value, ctx, st, lambda v, s: [
            (RAISE if isinstance(e, Exc) else NORMAL, e, s1) for e, s1 in self.assign(n.target, v, ctx, s, n)])

    def s_AugAssign(self, n, ctx, st):
        load = _as_load(n.target)

        def cont(cur, s):
            def cont2(rhs, s2):
                s2 = s2.copy()
                s2.add_event('augassign', n, ctx.fi, target=cur, op=type(n.op).__name__, value=rhs)
                o = s2.obj(cur)
                if isinstance(o, HObj) and o.cls is not None and isinstance(n.op, ast.Add):
                    f = self.prog.method(o.cls, '__iadd__') or self.prog.method(o.cls, '__add__')
                    if f is not None and not self.policy.opaque(self, f, cur, s2):
                        res = []
                        for v3, s3 in self.call_func(f, None, cur, [rhs], {}, n, ctx.fi, s2):
                            if isinstance(v3, Exc):
                                res.append((RAISE, v3, s3))
                            else:
                                res.extend((RAISE if isinstance(e, Exc) else NORMAL, e, s4)
                                           for e, s4 in self.assign(n.target, v3, ctx, s3, n))
                        return res
                if isinstance(o, HList) and o.kind in ('list', 'deque') and isinstance(n.op, ast.Add):
                    # in place extension
                    it = self.iterated(rhs, n, ctx, s2)
                    if it is not None:
                        rhs, s2 = it
                        if isinstance(rhs, Exc):
                            return [(RAISE, rhs, s2)]
                    m = s2.mut(cur)
                    r = s2.obj(rhs)
                    if isinstance(r, HList):
                        m.items = m.items + r.items
                        m.open = m.open or r.open
                    elif rhs.tag == 'tup':
                        m.items = m.items + rhs.k[1:]
                    else:
                        m.open = True
                    s2.add_event('mutate', n, ctx.fi, target=cur, how='+=', value=rhs)
                    return [(RAISE if isinstance(e, Exc) else NORMAL, e, s3)
                            for e, s3 in self.assign(n.target, cur, ctx, s2, n)]
                val = self.binop(n.op, cur, rhs, s2)
                if val.tag == 'op' or cur.tag == 'call':
                    s2.add_event('mutate', n, ctx.fi, target=cur, how='aug', value=rhs)
                return [(RAISE if isinstance(e, Exc) else NORMAL, e, s3)
                        for e, s3 in self.assign(n.target, val, ctx, s2, n)]
            return self._ev(n.value, ctx, s, cont2)
        return self._ev(load, ctx, st, cont)

    def s_Delete(self, n, ctx, st):
        outs = [(NORMAL, None, st)]
        for t in n.targets:
            nxt = []
            for kind, e, s in outs:
                if kind != NORMAL:
                    nxt.append((kind, e, s))
                    continue
                if isinstance(t, ast.Name):
                    s = s.copy()
                    s.add_event('delname', n, ctx.fi, name=t.id)
                    nxt.append((NORMAL, None, s))
                elif isinstance(t, ast.Attribute):
                    def c1(b, s1, t=t):
                        s1 = s1.copy()
                        s1.add_event('delattr', n, ctx.fi, base=b, name=t.attr)
                        if s1.obj(b) is not None and isinstance(s1.obj(b), HObj):
                            s1.mut(b).fields.pop(t.attr, None)
                        return [(NORMAL, None, s1)]
                    nxt.extend(self._ev(t.value, ctx, s, c1))
                elif isinstance(t, ast.Subscript):
                    def c2(b, s1, t=t):
                        def c3(i, s2):
                            return [(RAISE if isinstance(e2, Exc) else NORMAL, e2, s3)
                                    for e2, s3 in self.del_item(b, i, t, ctx, s2)]
                        return self._ev(t.slice, ctx, s1, c3)
                    nxt.extend(self._ev(t.value, ctx, s, c2))
                else:
                    nxt.append((NORMAL, None, s))
            outs = nxt
        return outs

    def del_item(self, b, i, n, ctx, st):
        o = st.obj(b)
        if isinstance(o, HObj):
            f = self.prog.method(o.cls, '__delitem__')
            if f is not None:
                return self.call_func(f, None, b, [i], {}, n, ctx.fi, st)
        st = st.copy()
        if isinstance(o, HList) and not o.open and o.kind != 'set':
            bad = seq_index_error(o, i)
            if bad:
                return [(Exc(bad, node=n, fi=ctx.fi, origin=b), st)]
        st.add_event('delitem', n, ctx.fi, base=b, index=i)
        st.add_event('mutate', n, ctx.fi, target=b, how='delitem', value=i)
        if isinstance(o, HList):
            m = st.mut(b)
            if i.tag == 'slice' and not o.open and all(is_const(x) for x in i.k[1:]):
                it = list(m.items)
                del it[slice(*[cval(x) for x in i.k[1:]])]
                m.items = tuple(it)
            elif is_const(i) and isinstance(cval(i), int) and not o.open and -len(o.items) <= cval(i) < len(o.items):
                it = list(m.items)
                del it[cval(i)]
                m.items = tuple(it)
            else:
                m.items, m.open = (), True
        elif isinstance(o, HDict):
            m = st.mut(b)
            m.items = tuple((a, v) for a, v in m.items if a != i)
        return [(None, st)]

    def s_If(self, n, ctx, st):
        out = []
        for t, s in self.cond(n.test, ctx, st):
            if isinstance(t, Exc):
                out.append((RAISE, t, s))
            else:
                out.extend(self.block(n.body if t else n.orelse, ctx, s))
        return out

    def s_While(self, n, ctx, st):
        out = []
        states = [st]
        for rnd in range(self.policy.while_bound + 1):
            nxt = []
            for s in states:
                for t, s1 in self.cond(n.test, ctx, s):
                    if isinstance(t, Exc):
                        out.append((RAISE, t, s1))
                    elif not t:
                        out.extend(self.block(n.orelse, ctx, s1))
                    elif rnd == self.policy.while_bound:
                        self.bound_hits += 1
                    else:
                        s1 = s1.copy()
                        s1.add_event('loop', n, ctx.fi, round=rnd)
                        for kind, v, s2 in self.block(n.body, ctx, s1):
                            if kind in (NORMAL, CONTINUE):
                                nxt.append(s2)
                            elif kind == BREAK:
                                out.append((NORMAL, None, s2))
                            else:
                                out.append((kind, v, s2))
            states = nxt
            if not states:
                break
        return out

    def s_For(self, n, ctx, st):
        def cont(it, s):
            return self.for_loop(it, n.target, n.body, n.orelse, n, ctx, s)
        return self._ev(n.iter, ctx, st, cont)

    def iter_plan(self, it, n, ctx, st):
        """-> (list of element values, exact) : exact False means unknown length"""
        pv = self.policy.iter_values(self, it, n, ctx.fi, st)
        if pv is not None:
            return list(pv), True
        o = st.obj(it)
        if isinstance(o, HList):
            if not o.open:
                return list(o.items), True
            return list(o.items) + [Item(it, Const('more%d' % i)) for i in range(self.policy.loop_bound)], False
        if isinstance(o, HDict):
            return [a for a, _ in o.items] + ([Item(it, Const('morekey'))] if o.open else []), not o.open
        if it.tag == 'tup':
            return list(it.k[1:]), True
        if it.tag == 'const' and isinstance(cval(it), str):
            return [Const(c) for c in cval(it)], True
        if it.tag == 'op':
            op = it.k[1]
            if op == 'range':
                a = it.k[2:]
                lo, hi, step = (Const(0), a[0], Const(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else Const(1))
                if all(is_const(x) and isinstance(cval(x), int) for x in (lo, hi, step)) and cval(step) != 0:
                    return [Const(i) for i in range(cval(lo), cval(hi), cval(step))][:64], True
                vals = []
                for k in range(self.policy.loop_bound):
                    v = lin_add(lo, Const(k * cval(step))) if is_const(step) and isinstance(cval(step), int) else None
                    vals.append(v if v is not None else Item(it, Const(k)))
                return vals, False
            if op == 'enumerate':
                inner, ex = self.iter_plan(it.k[2], n, ctx, st)
                start = it.k[3] if len(it.k) > 3 else Const(0)
                return [Tup([lin_add(start, Const(i)) or Const(i), v]) for i, v in enumerate(inner)], ex
            if op == 'zip':
                pl = [self.iter_plan(x, n, ctx, st) for x in it.k[2:]]
                if not pl:
                    return [], True
                m = min(len(p[0]) for p in pl)
                exact_lens = [len(p[0]) for p in pl if p[1]]
                ex = all(p[1] for p in pl) or (bool(exact_lens) and min(exact_lens) == m and all(p[1] or len(p[0]) > m for p in pl))
                return [Tup([p[0][i] for p in pl]) for i in range(m)], ex
            if op == 'reversed':
                inner, ex = self.iter_plan(it.k[2], n, ctx, st)
                return list(reversed(inner)), ex
            if op in ('list', 'tuple', 'iter', 'sorted') and len(it.k) == 3:
                return self.iter_plan(it.k[2], n, ctx, st)
            if op == 'items':
                o2 = st.obj(it.k[2])
                if isinstance(o2, HDict) and not o2.open:
                    return [Tup([a, b]) for a, b in o2.items], True
            if op in ('keys',):
                return self.iter_plan(it.k[2], n, ctx, st)
            if op == 'values':
                o2 = st.obj(it.k[2])
                if isinstance(o2, HDict) and not o2.open:
                    return [b for a, b in o2.items], True
        return [Item(it, Const(i)) for i in range(self.policy.loop_bound)], False

    def for_loop(self, it, target, body, orelse, n, ctx, st):
        if it == NONE:
            return [(RAISE, Exc('TypeError', node=n, fi=ctx.fi, origin=it), st)]
        # objects with program-defined __iter__
        o = st.obj(it)
        if isinstance(o, HObj):
            f = self.prog.method(o.cls, '__iter__')
            if f is not None and not f.is_generator and not self.policy.opaque(self, f, it, st):
                out = []
                for v, s in self.call_func(f, None, it, [], {}, n, ctx.fi, st):
                    if isinstance(v, Exc):
                        out.append((RAISE, v, s))
                    else:
                        out.extend(self.for_loop(v, target, body, orelse, n, ctx, s))
                return out
        if it.tag == 'call' and it.k[1].tag == 'attr' and it.k[1].k[2] == '__iter__' and not it.k[2]:
            it = it.k[1].k[1]
        if it.tag not in ('ref', 'op') and not isinstance(o, HList):
            r = self.policy.iter_object(self, it, n, ctx.fi, st)
            if r is not None:
                out = []
                for v, s in r:
                    if isinstance(v, Exc):
                        out.append((RAISE, v, s))
                    else:
                        out.extend(self.for_loop(v, target, body, orelse, n, ctx, s))
                return out
        plan, exact = self.iter_plan(it, n, ctx, st)
        out = []
        if it.tag == 'op':
            st = self.drain(it, st)
        states = [st]
        for exc in self.policy.may_raise(self, Op('iter', it), (), {}, n, ctx.fi, st):
            s1 = st.copy()
            out.append((RAISE, Exc(exc, node=n, fi=ctx.fi, origin=Op('iter', it)), s1))
        for k in range(len(plan) + 1):
            nxt = []
            for s in states:
                last = (k == len(plan))
                if last or not exact:
                    # leave the loop here
                    s1 = s.copy()
                    s1.add_event('loopexit', n, ctx.fi, it=it, rounds=k)
                    ok = True
                    if not exact:
                        key = Op('niter', it)
                        if k == 0:
                            if s1.facts.get(Op('nonempty', it)) is True:
                                ok = False
                            s1.facts[Op('nonempty', it)] = False
                        else:
                            s1.facts[Op('nonempty', it)] = True
                        if last:
                            self.bound_hits += 1
                    if ok:
                        out.extend(self.block(orelse, ctx, s1))
                if not last:
                    s1 = s.copy()
                    if not exact and k == 0:
                        if s1.facts.get(Op('nonempty', it)) is False:
                            continue
                        s1.facts[Op('nonempty', it)] = True
                    s1.add_event('loop', n, ctx.fi, it=it, round=k)
                    if isinstance(o, HList) and o.kind == 'iter':
                        m = s1.mut(it)
                        if not m.items:
                            out.extend(self.block(orelse, ctx, s1))
                            continue
                        plan = plan[:k] + [m.items[0]] + plan[k + 1:]
                        m.items = tuple(m.items[1:])
                    for e, s2 in self.assign(target, plan[k], ctx, s1, n):
                        if isinstance(e, Exc):
                            out.append((RAISE, e, s2))
                            continue
                        for kind, v, s3 in self.block(body, ctx, s2):
                            if kind in (NORMAL, CONTINUE):
                                nxt.append(s3)
                            elif kind == BREAK:
                                out.append((NORMAL, None, s3))
                            else:
                                out.append((kind, v, s3))
            states = nxt
            if not states:
                break
        if len(out) > self.policy.max_paths:
            raise PathLimit('too many paths in %s' % ctx.fi.qualname)
        return out

    def s_Raise(self, n, ctx, st):
        if n.exc is None:
            cur = ctx.current_exc(st)
            if cur is None:
                return [(RAISE, Exc('RuntimeError', node=n, fi=ctx.fi), st)]
            return [(RAISE, cur, st)]

        def cont(v, s):
            return [(RAISE, self.exc_of(v, n, ctx, s), s)]
        return self._ev(n.exc, ctx, st, cont)

    def exc_of(self, v, n, ctx, st):
        o = st.obj(v)
        if isinstance(o, HObj):
            return Exc(o.cls, v, n, ctx.fi)
        if v.tag == 'class':
            return Exc(v.k[1], v, n, ctx.fi)
        if v.tag == 'call' and v.k[1].tag == 'class':
            return Exc(v.k[1].k[1], v, n, ctx.fi)
        if v.tag == 'call' and v.k[1].tag == 'ext':
            return Exc(v.k[1].k[1].rpartition('.')[2], v, n, ctx.fi)
        if v.tag == 'ext':
            return Exc(v.k[1].rpartition('.')[2], v, n, ctx.fi)
        if v.tag == 'excval':
            return v.k[1]
        return Exc('Any', v, n, ctx.fi, origin=v)

    def exc_matches(self, exc, typ, ctx, st):
        """True / False / None (maybe)"""
        if typ.tag == 'tup':
            rs = [self.exc_matches(exc, t, ctx, st) for t in typ.k[1:]]
            if any(r is True for r in rs):
                return True
            if any(r is None for r in rs):
                return None
            return False
        if typ.tag == 'class':
            t = typ.k[1]
            if isinstance(exc.cls, ClassInfo):
                return self.prog.is_subclass(exc.cls, t)
            if exc.cls == 'Any':
                return None
            return False
        if typ.tag == 'ext':
            t = typ.k[1].rpartition('.')[2]
            if t == 'BaseException':
                return True
            if exc.cls == 'AnyBase':
                return None
            if isinstance(exc.cls, ClassInfo):
                bases = [b if not isinstance(b, ClassInfo) else b.name for b in self.prog.mro(exc.cls)]
                allb = set(bases)
                for b in bases:
                    allb.update(BUILTIN_EXC_BASES.get(b, []))
                return t in allb
            if exc.cls == 'Any':
                return True if t == 'Exception' else None
            return t == exc.cls or t in BUILTIN_EXC_BASES.get(exc.cls, ['Exception', 'BaseException'])
        return None

    def s_Try(self, n, ctx, st):
        res = []
        pending = self.block(n.body, ctx, st)
        after = []
        for kind, v, s in pending:
            if kind == NORMAL:
                after.extend(self.block(n.orelse, ctx, s) if n.orelse else [(NORMAL, None, s)])
            elif kind == RAISE:
                after.extend(self.handle(n, v, ctx, s))
            else:
                after.append((kind, v, s))
        if not n.finalbody:
            return after
        for kind, v, s in after:
            if kind == RAISE and v.cls == 'Stuck':
                res.append((kind, v, s))
                continue
            for k2, v2, s2 in self.block(n.finalbody, ctx, s):
                if k2 == NORMAL:
                    res.append((kind, v, s2))
                else:
                    res.append((k2, v2, s2))
        return res

    s_TryStar = s_Try

    def handle(self, n, exc, ctx, st):
        if exc.cls == 'Stuck':          # analysis artefact: the path waits forever
            return [(RAISE, exc, st)]
        out = []
        states = [st]
        for h in n.handlers:
            nxt = []
            for s in states:
                if h.type is None:
                    out.extend(self.run_handler(h, exc, ctx, s))
                    continue
                for t, s1 in self.eval(h.type, ctx, s):
                    if isinstance(t, Exc):
                        out.append((RAISE, t, s1))
                        continue
                    m = self.exc_matches(exc, t, ctx, s1)
                    if m is not True and m is not False:
                        # may match: remember the refinement
                        s2 = s1.copy()
                        e2 = exc
                        if t.tag == 'class':
                            e2 = Exc(t.k[1], exc.value, exc.node, exc.fi, exc.origin)
                        elif t.tag == 'ext':
                            e2 = Exc(t.k[1].rpartition('.')[2], exc.value, exc.node, exc.fi, exc.origin)
                        out.extend(self.run_handler(h, e2, ctx, s2))
                        nxt.append(s1)
                    elif m:
                        out.extend(self.run_handler(h, exc, ctx, s1))
                    else:
                        nxt.append(s1)
            states = nxt
        out.extend((RAISE, exc, s) for s in states)
        return out

    def run_handler(self, h, exc, ctx, st):
        st = st.copy()
        st.add_event('caught', h, ctx.fi, exc=exc)
        if h.name:
            self.set_name(h.name, exc.value if exc.value is not None else V(('excval', exc)), ctx, st, h)
        saved = st.notes.get('cur_exc', ())
        st.notes['cur_exc'] = saved + (exc,)
        out = []
        for kind, v, s in self.block(h.body, ctx, st):
            s.notes['cur_exc'] = saved
            out.append((kind, v, s))
        return out

    def s_With(self, n, ctx, st):
        return self._with(n, list(n.items), ctx, st)

    s_AsyncWith = s_With

    def _with(self, n, items, ctx, st):
        if not items:
            return self.block(n.body, ctx, st)
        item, rest = items[0], items[1:]

        def cont(cm, s):
            out = []
            for v, s1 in self.ctx_enter(cm, n, ctx, s):
                if isinstance(v, Exc):
                    out.append((RAISE, v, s1))
                    continue
                if item.optional_vars is not None:
                    res = self.assign(item.optional_vars, v, ctx, s1, n)
                else:
                    res = [(None, s1)]
                for e, s2 in res:
                    inner = [(RAISE, e, s2)] if isinstance(e, Exc) else self._with(n, rest, ctx, s2)
                    for kind, val, s3 in inner:
                        for e2, s4 in self.ctx_exit(cm, n, ctx, s3, val if kind == RAISE else None):
                            if isinstance(e2, Exc):
                                out.append((RAISE, e2, s4))
                            else:
                                out.append((kind, val, s4))
            return out
        return self._ev(item.context_expr, ctx, st, cont)

    def ctx_enter(self, cm, n, ctx, st):
        o = st.obj(cm)
        if isinstance(o, HObj):
            f = self.prog.method(o.cls, '__enter__')
            if f is not None and not self.policy.opaque(self, f, cm, st):
                return self.call_func(f, None, cm, [], {}, n, ctx.fi, st)
            if f is None and o.cls is not None and all(isinstance(k, ClassInfo) or str(k) in ('object', 'builtins.object') for k in self.prog.mro(o.cls)):
                return [(Exc('TypeError', node=n, fi=ctx.fi, origin=Ext('no context manager: ' + o.cls.name)), st)]
        return self.call(Attr(cm, '__enter__'), [], {}, n, ctx, st)

    def ctx_exit(self, cm, n, ctx, st, exc):
        o = st.obj(cm)
        if isinstance(o, HObj):
            f = self.prog.method(o.cls, '__exit__')
            if f is not None and not self.policy.opaque(self, f, cm, st):
                a = [NONE, NONE, NONE] if exc is None else [Sym('exc_type'), Sym('exc_value'), Sym('exc_tb')]
                return self.call_func(f, None, cm, a, {}, n, ctx.fi, st)
        return self.call(Attr(cm, '__exit__'), [], {}, n, ctx, st)

    # ------------------------------------------------------------ assignment
    def set_name(self, name, v, ctx, st, node):
        env = st.heap[ctx.env.k[1]]
        if name in env.globals_:
            st.globals[(ctx.fi.module.name, name)] = v
            st.add_event('store_global', node, ctx.fi, module=ctx.fi.module.name, name=name, value=v)
            return
        if name in env.nonlocals:
            p = env.parent
            while p is not None:
                pe = st.heap[p.k[1]]
                if name in pe.vars:
                    st.mut(p).vars[name] = v
                    return
                p = pe.parent
        st.mut(ctx.env).vars[name] = v

    def assign(self, t, v, ctx, st, n):
        """-> list of (None|Exc, State)"""
        if isinstance(t, ast.Name):
            st = st.copy()
            self.set_name(t.id, v, ctx, st, n)
            return [(None, st)]
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), t, st)
            states = [(None, st)]
            for e, x in zip(t.elts, vals):
                nxt = []
                for err, s in states:
                    if isinstance(err, Exc):
                        nxt.append((err, s))
                    else:
                        nxt.extend(self.assign(e, x, ctx, s, n))
                states = nxt
            return states
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, ctx, st, n)
        if isinstance(t, ast.Attribute):
            out = []
            for b, s in self.eval(t.value, ctx, st):
                if isinstance(b, Exc):
                    out.append((b, s))
                else:
                    out.extend(self.store_attr(b, t.attr, v, n, ctx, s))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for b, s in self.eval(t.value, ctx, st):
                if isinstance(b, Exc):
                    out.append((b, s))
                    continue
                for i, s1 in self.eval(t.slice, ctx, s):
                    if isinstance(i, Exc):
                        out.append((i, s1))
                    else:
                        out.extend(self.store_item(b, i, v, n, ctx, s1))
            return out
        return [(None, st)]

    def unpack(self, v, k, t, st):
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        items = None
        o = st.obj(v)
        if v.tag == 'tup':
            items = list(v.k[1:])
        elif isinstance(o, HList) and not o.open:
            items = list(o.items)
        if items is not None and not star and len(items) == k:
            return items
        return [Item(v, Const(i)) for i in range(k)]

    def store_attr(self, b, name, v, n, ctx, st):
        o = st.obj(b)
        if isinstance(o, HObj) and o.cls is not None:
            setter = self.find_setter(o.cls, name)
            if setter is not None:
                if setter == 'readonly':
                    return [(Exc('AttributeError', node=n, fi=ctx.fi, origin='no setter %s' % name), st)]
                return self.call_func(setter, None, b, [v], {}, n, ctx.fi, st)
        st = st.copy()
        st.add_event('store', n, ctx.fi, base=b, name=name, value=v)
        self.policy.on_store(self, b, name, v, n, ctx.fi, st)
        if isinstance(o, HObj):
            st.mut(b).fields[name] = v
        else:
            st.facts.pop(Attr(b, name), None)
            st.notes[('ovr', b, name)] = v
        return [(None, st)]

    def find_setter(self, ci, name):
        for k in self.prog.mro(ci):
            if not isinstance(k, ClassInfo):
                continue
            if name in k.setters:
                return k.setters[name]
            if name in k.assigns:
                e = k.assigns[name]
                if isinstance(e, ast.Call) and dotted(e.func) == 'property':
                    args = list(e.args)
                    kws = {x.arg: x.value for x in e.keywords}
                    fset = args[1] if len(args) > 1 else kws.get('fset')
                    if fset is None:
                        return 'readonly'
                    if isinstance(fset, ast.Name) and fset.id in k.methods:
                        return k.methods[fset.id]
                    if isinstance(fset, ast.Lambda):
                        return _intern_func(FuncInfo(fset, k.module, k))
                return None
            if name in k.methods:
                return 'readonly' if k.methods[name].is_property else None
        return None

    def store_item(self, b, i, v, n, ctx, st):
        if b.tag == 'objdict' and is_const(i):
            st = st.copy()
            st.add_event('store', n, ctx.fi, base=b.k[1], name=cval(i), value=v)
            st.mut(b.k[1]).fields[cval(i)] = v
            return [(None, st)]
        o = st.obj(b)
        if isinstance(o, HObj) and o.cls is not None:
            f = self.prog.method(o.cls, '__setitem__')
            if f is not None:
                return self.call_func(f, None, b, [i, v], {}, n, ctx.fi, st)
        st = st.copy()
        if isinstance(o, HList) and not o.open and o.kind != 'set':
            bad = seq_index_error(o, i)
            if bad:
                return [(Exc(bad, node=n, fi=ctx.fi, origin=b), st)]
        if isinstance(o, HList) and i.tag == 'slice':
            it = self.iterated(v, n, ctx, st)
            if it is not None:
                v2, st = it
                if isinstance(v2, Exc):
                    return [(v2, st)]
                v = v2
        st.add_event('store_item', n, ctx.fi, base=b, index=i, value=v)
        st.add_event('mutate', n, ctx.fi, target=b, how='setitem', value=v)
        if isinstance(o, HList):
            m = st.mut(b)
            if is_const(i) and isinstance(cval(i), int) and -len(m.items) <= cval(i) < len(m.items):
                it = list(m.items)
                it[cval(i)] = v
                m.items = tuple(it)
            elif i.tag == 'slice':
                lo, hi, step = i.k[1:]
                vo = st.obj(v)
                ins = list(vo.items) if isinstance(vo, HList) else (list(v.k[1:]) if v.tag == 'tup' else None)
                if ins is None:
                    ins = [Item(v, Const('spliced'))]
                if all(is_const(x) for x in (lo, hi, step)):
                    it = list(m.items)
                    try:
                        it[slice(cval(lo), cval(hi), cval(step))] = ins
                    except ValueError:
                        return [(Exc('ValueError', node=n, fi=ctx.fi, origin=b), st)]
                    m.items = tuple(it)
                else:
                    m.items = m.items + tuple(ins)
                    m.open = True
            else:
                m.open = True
        elif isinstance(o, HDict):
            st.mut(b).set(i, v)
        else:
            st.notes[('ovr', b, i)] = v
        return [(None, st)]

    # ------------------------------------------------------------ expressions
    def eval(self, e, ctx, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(V(('unknown', type(e).__name__, next(self.uid))), st)]
        return m(e, ctx, st)

    def evals(self, exprs, ctx, st):
        """-> list of (list|Exc, State)"""
        res = [([], st)]
        for e in exprs:
            nxt = []
            for vs, s in res:
                if isinstance(vs, Exc):
                    nxt.append((vs, s))
                    continue
                for v, s1 in self.eval(e, ctx, s):
                    nxt.append((v, s1) if isinstance(v, Exc) else (vs + [v], s1))
            res = nxt
        return res

    def map_eval(self, e, ctx, st, f):
        out = []
        for v, s in self.eval(e, ctx, st):
            out.append((v, s) if isinstance(v, Exc) else (f(v, s), s))
        return out

    def e_Constant(self, e, ctx, st):
        return [(Const(e.value), st)]

    def e_JoinedStr(self, e, ctx, st):
        parts = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
        out = []
        for vs, s in self.evals(parts, ctx, st):
            out.append((vs, s) if isinstance(vs, Exc) else (Op('str', *vs), s))
        return out

    def e_Name(self, e, ctx, st):
        return [(self.load_name(e.id, ctx, st), st)]

    def load_name(self, name, ctx, st):
        env = st.heap[ctx.env.k[1]]
        if name not in env.globals_:
            if name in env.vars:
                return env.vars[name]
            p = env.parent
            while p is not None:
                pe = st.heap[p.k[1]]
                if name in pe.vars:
                    return pe.vars[name]
                p = pe.parent
            if _is_local(ctx.fi, name) and name not in env.nonlocals:
                return V(('unbound', name, ctx.fi.qualname))
        return self.load_global(ctx.fi.module, name, st)

    def load_global(self, module, name, st):
        key = (module.name, name)
        if key in st.globals:
            return st.globals[key]
        pv = self.policy.load_global(self, module, name, st)
        if pv is not None:
            return pv
        r = self.prog.resolve_in(module, name)
        return self.from_resolution(r, name, module, st)

    def from_resolution(self, r, name, module=None, st=None):
        kind = r[0]
        if kind == 'def':
            return Func(r[1])
        if kind == 'class':
            return ClassV(r[1])
        if kind == 'module':
            return ModV(r[1])
        if kind == 'ext':
            p = r[1]
            if p == 'True':
                return TRUE
            if p == 'False':
                return FALSE
            return Ext(p)
        if kind == 'value':
            expr, m, nm = r[1], r[2], r[3]
            if st is not None and (m.name, nm) in st.globals:
                return st.globals[(m.name, nm)]
            if isinstance(expr, ast.Constant):
                # module constants that are never rebound through `global`
                if not _rebound(m, nm):
                    return Const(expr.value)
            return Sym('%s.%s' % (m.name if hasattr(m, 'symbols') else m.qualname, nm))
        return Ext(name)

    def e_NamedExpr(self, e, ctx, st):
        out = []
        for v, s in self.eval(e.value, ctx, st):
            if isinstance(v, Exc):
                out.append((v, s))
            else:
                out.extend((v if err is None else err, s1) for err, s1 in self.assign(e.target, v, ctx, s, e))
        return out

    def e_Tuple(self, e, ctx, st):
        out = []
        for vs, s in self.evals(e.elts, ctx, st):
            out.append((vs, s) if isinstance(vs, Exc) else (Tup(vs), s))
        return out

    def e_List(self, e, ctx, st):
        out = []
        for vs, s in self.evals([x.value if isinstance(x, ast.Starred) else x for x in e.elts], ctx, st):
            if isinstance(vs, Exc):
                out.append((vs, s))
            else:
                s = s.copy()
                items, opn = [], False
                for x, v in zip(e.elts, vs):
                    if isinstance(x, ast.Starred):
                        o = s.obj(v)
                        if isinstance(o, HList):
                            items.extend(o.items)
                            opn = opn or o.open
                        elif v.tag == 'tup':
                            items.extend(v.k[1:])
                        else:
                            opn = True
                    else:
                        items.append(v)
                out.append((s.alloc(HList(items, opn)), s))
        return out

    def e_Set(self, e, ctx, st):
        out = []
        for vs, s in self.evals(e.elts, ctx, st):
            if isinstance(vs, Exc):
                out.append((vs, s))
            else:
                s = s.copy()
                out.append((s.alloc(HList(vs, False, 'set')), s))
        return out

    def e_Dict(self, e, ctx, st):
        ks = [k for k in e.keys if k is not None]
        out = []
        for vs, s in self.evals(ks + [v for k, v in zip(e.keys, e.values)], ctx, st):
            if isinstance(vs, Exc):
                out.append((vs, s))
            else:
                s = s.copy()
                d = HDict()
                kk, vv = vs[:len(ks)], vs[len(ks):]
                j = 0
                for k, v in zip(e.keys, vv):
                    if k is None:
                        d.open = True
                        o = s.obj(v)
                        if isinstance(o, HDict):
                            for a, b in o.items:
                                d.set(a, b)
                    else:
                        d.set(kk[j], v)
                        j += 1
                out.append((s.alloc(d), s))
        return out

    def e_Lambda(self, e, ctx, st):
        fi = FuncInfo(e, ctx.fi.module, None, ctx.fi)
        return [(Func(_intern_func(fi), ctx.env, None), st)]

    def e_Starred(self, e, ctx, st):
        return self.map_eval(e.value, ctx, st, lambda v, s: V(('starargs', v)))

    def e_Attribute(self, e, ctx, st):
        out = []
        for b, s in self.eval(e.value, ctx, st):
            if isinstance(b, Exc):
                out.append((b, s))
            else:
                out.extend(self.load_attr(b, e.attr, e, ctx, s))
        return out

    def load_attr(self, b, name, n, ctx, st):
        """-> list of (V|Exc, State)"""
        t = b.tag
        if t == 'super':
            ci, selfv = b.k[1], b.k[2]
            o = st.obj(selfv)
            cls = o.cls if isinstance(o, HObj) else (selfv.k[1] if selfv.tag == 'class' else ci)
            r = self.prog.lookup(cls, name, after=ci)
            if r is None or r[0] != 'def':
                return [(Attr(b, name), st)]
            f = r[1]
            if f.is_property:
                return self.call_func(f, None, selfv, [], {}, n, ctx.fi, st)
            return [(Func(f, None, None if f.is_static else selfv), st)]
        if t == 'ref':
            o = st.obj(b)
            if isinstance(o, HObj):
                return self.load_obj_attr(b, o, name, n, ctx, st)
            return [(Attr(b, name), st)]
        if t == 'module':
            v = self.load_module_attr(b.k[1], name, st)
            return [(v, st)]
        if t == 'class':
            if name in ('__name__',):
                return [(Const(b.k[1].name), st)]
            r = self.prog.lookup(b.k[1], name)
            if r is not None and r[0] == 'def':
                f = r[1]
                return [(Func(f, None, b if f.is_classmethod else None), st)]
            if r is not None and isinstance(r[1], ast.Constant):
                return [(Const(r[1].value), st)]
            return [(Attr(b, name), st)]
        if t == 'ext':
            return [(Ext(canon_ext(b.k[1] + '.' + name)), st)]
        ov = st.notes.get(('ovr', b, name))
        if ov is not None:
            return [(ov, st)]
        if t == 'slice' and name in ('start', 'stop', 'step'):
            return [(b.k[1 + ('start', 'stop', 'step').index(name)], st)]
        if t == 'const' and not name.startswith('__'):
            try:
                known = hasattr(cval(b), name)
            except Exception:
                known = True
            if not known:
                return [(Exc('AttributeError', node=n, fi=ctx.fi, origin=b), st)]
        if t == 'func' and name == '__func__':
            return [(Func(b.k[1], b.k[2], None), st)]
        tv = self.policy.load_term(self, b, name, st)
        if tv is not None:
            return [(tv, st)]
        return [(Attr(b, name), st)]

    def load_module_attr(self, m, name, st):
        key = (m.name, name)
        if key in st.globals:
            return st.globals[key]
        pv = self.policy.load_global(self, m, name, st)
        if pv is not None:
            return pv
        return self.from_resolution(self.prog._module_attr(m, name, frozenset()), m.name + '.' + name, m, st)

    def load_obj_attr(self, b, o, name, n, ctx, st):
        if name in o.fields:
            return [(o.fields[name], st)]
        pm = self.policy.load_method(self, b, o, name, st)
        if pm is not None:
            return [(pm, st)]
        if name == '__dict__':
            return [(V(('objdict', b)), st)]
        if name == '__class__':
            return [(ClassV(o.cls) if o.cls is not None else Call(Ext('type'), [b], {}, 0), st)]
        if o.cls is not None:
            r = self.prog.lookup(o.cls, name)
            if r is not None:
                if r[0] == 'def':
                    f = r[1]
                    if f.is_property or any((d or '').endswith('.setter') for d in f.decorators):
                        return self.call_func(f, None, b, [], {}, n, ctx.fi, st)
                    return [(Func(f, None, None if f.is_static else ClassV(o.cls) if f.is_classmethod else b), st)]
                expr, ci = r[1], r[2]
                if isinstance(expr, ast.Call) and dotted(expr.func) == 'property':
                    g = expr.args[0] if expr.args else {x.arg: x.value for x in expr.keywords}.get('fget')
                    if isinstance(g, ast.Name) and g.id in ci.methods:
                        return self.call_func(ci.methods[g.id], None, b, [], {}, n, ctx.fi, st)
                    if isinstance(g, ast.Lambda):
                        return self.call_func(_intern_func(FuncInfo(g, ci.module, ci)), None, b, [], {}, n, ctx.fi, st)
                if isinstance(expr, ast.Constant):
                    return [(Const(expr.value), st)]
        pv = self.policy.load_field(self, b, o, name, st)
        if pv is None:
            pv = Attr(Sym(o.name or 'obj'), name)
        elif isinstance(pv, tuple):
            return [pv]
        if not name.startswith('__'):
            st = st.copy()
            st.mut(b).fields[name] = pv
        return [(pv, st)]

    def e_Subscript(self, e, ctx, st):
        out = []
        for b, s in self.eval(e.value, ctx, st):
            if isinstance(b, Exc):
                out.append((b, s))
                continue
            for i, s1 in self.eval(e.slice, ctx, s):
                if isinstance(i, Exc):
                    out.append((i, s1))
                else:
                    out.extend(self.load_item(b, i, e, ctx, s1))
        return out

    def load_item(self, b, i, n, ctx, st):
        if b.tag == 'objdict' and is_const(i):
            o = st.obj(b.k[1])
            if cval(i) in o.fields:
                return [(o.fields[cval(i)], st)]
            return self.load_attr(b.k[1], cval(i), n, ctx, st)
        o = st.obj(b)
        if isinstance(o, HObj) and o.cls is not None:
            f = self.prog.method(o.cls, '__getitem__')
            if f is not None and not self.policy.opaque(self, f, b, st):
                return self.call_func(f, None, b, [i], {}, n, ctx.fi, st)
        items = None
        if b == NONE:
            return [(Exc('TypeError', node=n, fi=ctx.fi, origin=b), st)]
        if isinstance(o, HList) and o.kind == 'deque' and i.tag == 'slice':
            return [(Exc('TypeError', node=n, fi=ctx.fi, origin=b), st)]
        if b.tag == 'tup':
            items = list(b.k[1:])
        elif isinstance(o, HList) and not (o.kind == 'set'):
            items = list(o.items)
        if items is not None:
            closed = not (isinstance(o, HList) and o.open)
            if is_const(i) and isinstance(cval(i), int):
                k = cval(i)
                if -len(items) <= k < len(items) and (closed or k >= 0):
                    return [(items[k], st)]
                if closed:
                    return [(Exc('IndexError', node=n, fi=ctx.fi, origin=b), st)]
            elif is_const(i):
                return [(Exc('TypeError', node=n, fi=ctx.fi, origin=b), st)]
            if i.tag == 'slice' and closed and all(is_const(x) for x in i.k[1:]):
                lo, hi, step = [cval(x) for x in i.k[1:]]
                sub = items[lo:hi:step]
                if b.tag == 'tup':
                    return [(Tup(sub), st)]
                st = st.copy()
                return [(st.alloc(HList(sub)), st)]
        if isinstance(o, HDict):
            v = o.get(i)
            if v is not None:
                return [(v, st)]
            if not o.open and is_const(i) and all(is_const(a) for a, _ in o.items):
                return [(Exc('KeyError', node=n, fi=ctx.fi, origin=b), st)]
        ov = st.notes.get(('ovr', b, i))
        if ov is not None:
            return [(ov, st)]
        out = [(Item(b, i), st)]
        for x in self.policy.may_raise(self, Item(b, i), (), {}, n, ctx.fi, st):
            out.append((Exc(x, node=n, fi=ctx.fi, origin=Item(b, i)), st.copy()))
        return out

    def e_Slice(self, e, ctx, st):
        parts = [e.lower, e.upper, e.step]
        out = []
        res = [([], st)]
        for p in parts:
            nxt = []
            for vs, s in res:
                if isinstance(vs, Exc):
                    nxt.append((vs, s))
                elif p is None:
                    nxt.append((vs + [NONE], s))
                else:
                    for v, s1 in self.eval(p, ctx, s):
                        nxt.append((v, s1) if isinstance(v, Exc) else (vs + [v], s1))
            res = nxt
        for vs, s in res:
            out.append((vs, s) if isinstance(vs, Exc) else (V(('slice',) + tuple(vs)), s))
        return out

    def e_Index(self, e, ctx, st):
        return self.eval(e.value, ctx, st)

    def e_ExtSlice(self, e, ctx, st):
        return self.e_Tuple(ast.Tuple(elts=e.dims), ctx, st)

    def e_UnaryOp(self, e, ctx, st):
        if isinstance(e.op, ast.Not):
            out = []
            for t, s in self.cond(e.operand, ctx, st):
                out.append((t, s) if isinstance(t, Exc) else (FALSE if t else TRUE, s))
            return out

        def f(v, s):
            if isinstance(e.op, ast.USub):
                if is_const(v) and isinstance(cval(v), (int, float)) and not isinstance(cval(v), bool):
                    return Const(-cval(v))
                r = lin_add(Const(0), v, -1)
                if r is not None:
                    return r
            return Op(type(e.op).__name__, v)
        return self.map_eval(e.operand, ctx, st, f)

    def e_BinOp(self, e, ctx, st):
        out = []
        for vs, s in self.evals([e.left, e.right], ctx, st):
            if isinstance(vs, Exc):
                out.append((vs, s))
                continue
            a, b = vs
            o = s.obj(a)
            if isinstance(o, HObj) and o.cls is not None and isinstance(e.op, ast.Add):
                f = self.prog.method(o.cls, '__add__')
                if f is not None and not self.policy.opaque(self, f, a, s):
                    out.extend(self.call_func(f, None, a, [b], {}, e, ctx.fi, s))
                    continue
            s = s.copy()
            out.append((self.binop(e.op, a, b, s), s))
        return out

    def binop(self, op, a, b, st):
        oa, ob = st.obj(a), st.obj(b)
        if isinstance(op, ast.Add):
            if isinstance(oa, HList) and isinstance(ob, HList):
                return st.alloc(HList(oa.items + ob.items, oa.open or ob.open))
            if isinstance(oa, HList) and b.tag == 'tup':
                return Op('+', a, b)
            if a.tag == 'tup' and b.tag == 'tup':
                return Tup(a.k[1:] + b.k[1:])
            if isinstance(oa, HList) or isinstance(ob, HList):
                o = oa if isinstance(oa, HList) else ob
                return st.alloc(HList(o.items, True))
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub)) and isinstance(oa, HList) and isinstance(ob, HList) and oa.kind == 'set' and ob.kind == 'set' \
                and not oa.open and not ob.open:
            how = 'intersection' if isinstance(op, ast.BitAnd) else 'difference' if isinstance(op, ast.Sub) else 'union'
            its = self.set_combine(how, oa.items, ob.items, st)
            if its is not None:
                return st.alloc(HList(its, kind='set'))
        if isinstance(op, ast.Mult):
            if isinstance(oa, HList) and is_const(b) and isinstance(cval(b), int) and not oa.open:
                return st.alloc(HList(oa.items * min(cval(b), 16)))
            if a.tag == 'tup' and is_const(b) and isinstance(cval(b), int):
                return Tup(list(a.k[1:]) * min(cval(b), 16))
            if isinstance(oa, HList):
                # [x] * n : unknown length, every item x
                if len(oa.items) == 1 and not oa.open:
                    return Op('repeat', oa.items[0], b)
                return st.alloc(HList(oa.items, True))
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                if isinstance(op, ast.Add):
                    return Const(x + y)
                if isinstance(op, ast.Sub):
                    return Const(x - y)
                if isinstance(op, ast.Mult) and not isinstance(x, str) and not isinstance(y, str):
                    return Const(x * y)
                if isinstance(op, ast.FloorDiv):
                    return Const(x // y)
                if isinstance(op, ast.Mod) and not isinstance(x, str):
                    return Const(x % y)
            except Exception:
                pass
        if isinstance(op, ast.Add):
            r = lin_add(a, b)
            if r is not None:
                return r
        if isinstance(op, ast.Sub):
            r = lin_add(a, b, -1)
            if r is not None:
                return r
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if is_const(x) and isinstance(cval(x), int) and not isinstance(cval(x), bool):
                    l = lin_of(y)
                    if l is not None:
                        return mk_lin({k: c * cval(x) for k, c in l[0].items()}, l[1] * cval(x))
        names = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**', 'MatMult': '@'}
        nm = names.get(type(op).__name__, type(op).__name__)
        if nm == '*' and repr(b) < repr(a):
            a, b = b, a
        return Op(nm, a, b)

    def e_BoolOp(self, e, ctx, st):
        is_and = isinstance(e.op, ast.And)
        res = []
        cur = [st]
        for k, x in enumerate(e.values):
            nxt = []
            last = k == len(e.values) - 1
            for s in cur:
                for v, s1 in self.eval(x, ctx, s):
                    if isinstance(v, Exc) or last:
                        res.append((v, s1))
                        continue
                    for t, s2 in self.truth(v, s1, x, ctx):
                        if isinstance(t, Exc):
                            res.append((t, s2))
                        elif t == is_and:
                            nxt.append(s2)
                        else:
                            res.append((v, s2))
            cur = nxt
        return res

    def e_Compare(self, e, ctx, st):
        out = []
        for vs, s in self.evals([e.left] + list(e.comparators), ctx, st):
            if isinstance(vs, Exc):
                out.append((vs, s))
                continue
            if isinstance(e.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and NONE in vs[:2]:
                out.append((Exc('TypeError', node=e, fi=ctx.fi, origin=NONE), s))
                continue
            if len(e.ops) == 1:
                out.append((self.compare(e.ops[0], vs[0], vs[1], s), s))
            else:
                terms = [self.compare(op, a, b, s) for op, a, b in zip(e.ops, vs, vs[1:])]
                # conjunction
                cur = [s]
                for t in terms:
                    nxt = []
                    for s1 in cur:
                        for tv, s2 in self.truth(t, s1, e, ctx):
                            if isinstance(tv, Exc):
                                out.append((tv, s2))
                            elif tv:
                                nxt.append(s2)
                            else:
                                out.append((FALSE, s2))
                    cur = nxt
                out.extend((TRUE, s1) for s1 in cur)
        return out

    def compare(self, op, a, b, st):
        """normalised boolean term"""
        if isinstance(op, ast.Eq):
            return self.mk_eq(a, b, st)
        if isinstance(op, ast.NotEq):
            return neg(self.mk_eq(a, b, st))
        if isinstance(op, ast.Is):
            return self.mk_is(a, b, st)
        if isinstance(op, ast.IsNot):
            return neg(self.mk_is(a, b, st))
        if isinstance(op, ast.Lt):
            return self.mk_lt(a, b)
        if isinstance(op, ast.Gt):
            return self.mk_lt(b, a)
        if isinstance(op, ast.LtE):
            return neg(self.mk_lt(b, a))
        if isinstance(op, ast.GtE):
            return neg(self.mk_lt(a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            t = self.mk_in(a, b, st)
            return t if isinstance(op, ast.In) else neg(t)
        return Op('cmp?', a, b)

    def mk_eq(self, a, b, st):
        if a == b and a.tag in ('const', 'ref', 'sym', 'class', 'attr', 'item', 'lin', 'func', 'tup'):
            return TRUE
        if is_const(a) and is_const(b):
            return Const(bool(cval(a) == cval(b)))
        d = lin_add(a, b, -1)
        if d is not None and is_const(d):
            return Const(cval(d) == 0)
        for x, y in ((a, b), (b, a)):
            if is_const(x) and cval(x) is None and (y.tag in ('tup', 'class', 'func', 'slice') or st.obj(y) is not None):
                return FALSE
        if is_const(a) and is_const(b):
            return FALSE
        oa, ob = st.obj(a), st.obj(b)
        for x, y, oy in ((oa, ob, b), (ob, oa, a)):
            if isinstance(x, HList) and isinstance(y, HList) and not x.open and not y.open and len(x.items) != len(y.items):
                return FALSE
        if repr(b) < repr(a):
            a, b = b, a
        return Op('==', a, b)

    def mk_is(self, a, b, st):
        if a == b and a.tag in ('const', 'ref', 'class', 'sym', 'attr', 'item', 'func', 'ext'):
            return TRUE
        for x, y in ((a, b), (b, a)):
            if is_const(x):
                if is_const(y):
                    return Const(x == y)
                if y.tag in ('tup', 'class', 'func', 'slice', 'lin') or st.obj(y) is not None or y.tag == 'op':
                    return FALSE
        if a.tag == 'ref' and b.tag == 'ref':
            return FALSE
        if a.tag == 'class' and b.tag == 'class':
            return FALSE
        if a.tag == 'ext' and b.tag == 'ext' and a.k[1] in TYPE_NAMES and b.k[1] in TYPE_NAMES:
            return FALSE
        if repr(b) < repr(a):
            a, b = b, a
        return Op('is', a, b)

    def mk_lt(self, a, b):
        if is_const(a) and is_const(b):
            try:
                return Const(bool(cval(a) < cval(b)))
            except TypeError:
                return Op('<', a, b)
        d = lin_add(a, b, -1)
        if d is not None:
            if is_const(d):
                return Const(cval(d) < 0)
            # canonical:  terms < const
            l = lin_of(d)
            return Op('<', mk_lin(l[0], 0), Const(-l[1]))
        return Op('<', a, b)

    def mk_in(self, a, b, st):
        o = st.obj(b)
        items = None
        if b.tag == 'tup':
            items = list(b.k[1:])
        elif isinstance(o, HList) and not o.open:
            items = list(o.items)
        elif isinstance(o, HDict) and not o.open:
            items = [x for x, _ in o.items]
        if items is not None:
            eqs = [self.mk_eq(a, x, st) for x in items]
            if any(is_const(x) and cval(x) is True for x in eqs):
                return TRUE
            if all(is_const(x) and cval(x) is False for x in eqs):
                return FALSE
        return Op('in', a, b)

    def e_IfExp(self, e, ctx, st):
        out = []
        for t, s in self.cond(e.test, ctx, st):
            if isinstance(t, Exc):
                out.append((t, s))
            else:
                out.extend(self.eval(e.body if t else e.orelse, ctx, s))
        return out

    def _comp(self, e, ctx, st, kind):
        """comprehensions as loops collecting into a fresh list"""
        fi = FuncInfo(ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[], vararg=None, kwarg=None), body=e), ctx.fi.module, None, ctx.fi)
        fi = ctx.fi
        st = st.copy()
        acc = st.alloc(HList([], False, kind) if kind != 'dict' else HDict())
        # comprehension scope: reuse the environment (names are fresh in practice)
        elt = e.elt if kind != 'dict' else ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        gens = e.generators

        def build(i):
            if i == len(gens):
                return [_CompAppend(acc, elt, kind, e)]
            g = gens[i]
            inner = build(i + 1)
            for c in reversed(g.ifs):
                inner = [ast.copy_location(ast.If(test=c, body=inner, orelse=[]), e)]
            f = ast.For(target=g.target, iter=g.iter, body=inner, orelse=[])
            ast.copy_location(f, e)
            return [f]
        env_before = st.heap[ctx.env.k[1]]
        out = []
        # first iterator exactness determines openness
        for kind_, v, s in self.block(build(0), ctx, st):
            if kind_ == RAISE:
                out.append((v, s))
            else:
                names = [nm for g in gens for nm in _tnames(g.target)]
                en = s.mut(ctx.env)
                for nm in names:
                    if nm in env_before.vars:
                        en.vars[nm] = env_before.vars[nm]
                    else:
                        en.vars.pop(nm, None)
                out.append((acc, s))
        return out

    def s__CompAppend(self, n, ctx, st):
        def cont(v, s):
            s = s.copy()
            m = s.mut(n.acc)
            if isinstance(m, HDict):
                m.set(v.k[1], v.k[2])
            else:
                m.items = m.items + (v,)
            return [(NORMAL, None, s)]
        return self._ev(n.elt, ctx, st, cont)

    def e_ListComp(self, e, ctx, st):
        return self._comp(e, ctx, st, 'list')

    def e_SetComp(self, e, ctx, st):
        return self._comp(e, ctx, st, 'set')

    def e_GeneratorExp(self, e, ctx, st):
        return self._comp(e, ctx, st, 'list')

    def e_DictComp(self, e, ctx, st):
        return self._comp(e, ctx, st, 'dict')

    def e_Await(self, e, ctx, st):
        return self.eval(e.value, ctx, st)

    def e_Yield(self, e, ctx, st):
        return [(V(('unknown', 'yield', next(self.uid))), st)]

    def e_Call(self, e, ctx, st):
        out = []
        fexpr = e.func
        for f, s in self.eval(fexpr, ctx, st):
            if isinstance(f, Exc):
                out.append((f, s))
                continue
            # arguments
            res = [([], {}, s)]
            for a in e.args:
                nxt = []
                for av, kv, s1 in res:
                    if isinstance(av, Exc):
                        nxt.append((av, kv, s1))
                        continue
                    if isinstance(a, ast.Starred):
                        for v, s2 in self.eval(a.value, ctx, s1):
                            if isinstance(v, Exc):
                                nxt.append((v, kv, s2))
                            else:
                                o = s2.obj(v)
                                if v.tag == 'tup':
                                    nxt.append((av + list(v.k[1:]), kv, s2))
                                elif isinstance(o, HList) and not o.open:
                                    nxt.append((av + list(o.items), kv, s2))
                                else:
                                    nxt.append((av + [V(('starargs', v))], kv, s2))
                    else:
                        for v, s2 in self.eval(a, ctx, s1):
                            nxt.append((v, kv, s2) if isinstance(v, Exc) else (av + [v], kv, s2))
                res = nxt
            for kwa in e.keywords:
                nxt = []
                for av, kv, s1 in res:
                    if isinstance(av, Exc):
                        nxt.append((av, kv, s1))
                        continue
                    for v, s2 in self.eval(kwa.value, ctx, s1):
                        if isinstance(v, Exc):
                            nxt.append((v, kv, s2))
                            continue
                        kv2 = dict(kv)
                        if kwa.arg is None:
                            o = s2.obj(v)
                            if isinstance(o, HDict):
                                for a_, b_ in o.items:
                                    if is_const(a_):
                                        kv2[cval(a_)] = b_
                                if o.open:
                                    kv2['**'] = v
                            else:
                                kv2['**'] = v
                        else:
                            kv2[kwa.arg] = v
                        nxt.append((av, kv2, s2))
                res = nxt
            for av, kv, s1 in res:
                if isinstance(av, Exc):
                    out.append((av, s1))
                else:
                    out.extend(self.call(f, av, kv, e, ctx, s1))
        return out

    def call(self, f, args, kwargs, n, ctx, st):
        """-> list of (V|Exc, State)"""
        r = self.policy.intercept(self, f, args, kwargs, n, ctx.fi, st)
        if r is not None:
            return r
        t = f.tag
        if t == 'const':
            return [(Exc('TypeError', node=n, fi=ctx.fi, origin=f), st)]
        if t == 'func':
            fi, env, selfv = f.k[1], f.k[2], f.k[3]
            if self.policy.opaque(self, fi, selfv, st):
                return self.call_opaque(f, args, kwargs, n, ctx, st)
            return self.call_func(fi, env, selfv, args, kwargs, n, ctx.fi, st)
        if t == 'class':
            return self.construct(f.k[1], args, kwargs, n, ctx, st)
        if t == 'ext' and f.k[1] == 'collections.deque' and len(args) <= 1:
            res = []
            for v, s in self.b_list(args, {}, n, ctx, st):
                if isinstance(s.obj(v) if not isinstance(v, Exc) else None, HList):
                    s.mut(v).kind = 'deque'
                res.append((v, s))
            return res
        if t == 'ext':
            nm = f.k[1]
            b = getattr(self, 'b_' + nm, None) if nm in PURE_BUILTINS else None
            if b is not None:
                r = b(args, kwargs, n, ctx, st)
                if r is not None:
                    return r
        if t == 'call' and f.k[1] == Ext('operator.itemgetter') and len(f.k[2]) == 1 and len(args) == 1:
            return self.load_item(args[0], f.k[2][0], n, ctx, st)
        if t == 'attr':
            r = self.container_method(f.k[1], f.k[2], args, kwargs, n, ctx, st)
            if r is not None:
                return r
        if t == 'ref':
            o = st.obj(f)
            if isinstance(o, HObj) and o.cls is not None:
                m = self.prog.method(o.cls, '__call__')
                if m is not None and not self.policy.opaque(self, m, f, st):
                    return self.call_func(m, None, f, args, kwargs, n, ctx.fi, st)
        return self.call_opaque(f, args, kwargs, n, ctx, st)

    def call_opaque(self, f, args, kwargs, n, ctx, st):
        st = st.copy()
        uid = next(self.uid)
        val = Call(f, args, kwargs, uid)
        st.add_event('call', n, ctx.fi, callee=f, args=tuple(args), kwargs=tuple(sorted(kwargs.items())), result=val,
                     name=callee_name(f))
        self.opaque_calls.add(callee_name(f))
        out = [(val, st)]
        for x in self.policy.may_raise(self, f, args, kwargs, n, ctx.fi, st):
            s2 = st.copy()
            s2.add_event('raised', n, ctx.fi, callee=f, name=callee_name(f))
            out.append((Exc(x, node=n, fi=ctx.fi, origin=f), s2))
        return out

    def construct(self, ci, args, kwargs, n, ctx, st):
        st = st.copy()
        is_exc = self.prog.is_subclass(ci, 'Exception') or self.prog.is_subclass(ci, 'BaseException')
        init = self.prog.method(ci, '__init__')
        ref = st.alloc(HObj(ci, {}, '%s#%d' % (ci.name, st.nextid)))
        st.add_event('new', n, ctx.fi, cls=ci, ref=ref, args=tuple(args), kwargs=tuple(kwargs.items()))
        if is_exc or init is None or self.policy.opaque(self, init, ref, st):
            st.mut(ref).fields['__args__'] = Tup(args)
            out = [(ref, st)]
            if not is_exc:
                for x in self.policy.may_raise(self, ClassV(ci), args, kwargs, n, ctx.fi, st):
                    out.append((Exc(x, node=n, fi=ctx.fi, origin=ClassV(ci)), st.copy()))
            return out
        out = []
        for v, s in self.call_func(init, None, ref, args, kwargs, n, ctx.fi, st):
            out.append((v, s) if isinstance(v, Exc) else (ref, s))
        return out

    # ------------------------------------------------- builtins & containers
    def b_len(self, args, kw, n, ctx, st):
        if len(args) != 1:
            return None
        v = args[0]
        o = st.obj(v)
        if v == NONE or (is_const(v) and isinstance(cval(v), (int, float, bool))):
            return [(Exc('TypeError', node=n, fi=ctx.fi, origin=v), st)]
        if isinstance(o, HList) and not o.open:
            return [(Const(len(o.items)), st)]
        if isinstance(o, HDict) and not o.open:
            return [(Const(len(o.items)), st)]
        if v.tag == 'tup':
            return [(Const(len(v.k) - 1), st)]
        if is_const(v) and isinstance(cval(v), str):
            return [(Const(len(cval(v))), st)]
        if isinstance(o, HObj) and o.cls is not None:
            f = self.prog.method(o.cls, '__len__')
            if f is not None and not self.policy.opaque(self, f, v, st):
                return self.call_func(f, None, v, [], {}, n, ctx.fi, st)
        if v.tag == 'op' and v.k[1] in ('list', 'tuple', 'reversed') and len(v.k) == 3:
            return self.b_len([v.k[2]], {}, n, ctx, st)
        if v.tag == 'op' and v.k[1] == 'repeat':
            return [(v.k[3], st)]
        return [(Op('len', v), st)]

    def b_isinstance(self, args, kw, n, ctx, st):
        if len(args) != 2:
            return None
        v, t = args
        r = self.isinst(v, t, st)
        if r is not None:
            return [(Const(r), st)]
        if t.tag == 'tup':
            # any of
            out = []
            cur = [st]
            for tt in t.k[1:]:
                nxt = []
                for s in cur:
                    r = self.isinst(v, tt, s)
                    for tv, s1 in ([(r, s)] if r is not None else self.truth(Op('isinstance', v, tt), s, n, ctx)):
                        if tv:
                            out.append((TRUE, s1))
                        else:
                            nxt.append(s1)
                cur = nxt
            return out + [(FALSE, s) for s in cur]
        return [(Op('isinstance', v, t), st)]

    def isinst(self, v, t, st):
        o = st.obj(v)
        tn = t.k[1] if t.tag == 'ext' else None
        if isinstance(o, HObj) and o.cls is not None:
            if t.tag == 'class':
                return self.prog.is_subclass(o.cls, t.k[1])
            if tn in ('list', 'tuple', 'dict', 'str', 'slice', 'int', 'float', 'numpy.ndarray'):
                return False
        if isinstance(o, HList):
            if tn in ('list', 'set'):
                return o.kind == tn
            if tn is not None or t.tag == 'class':
                return False
        if isinstance(o, HDict):
            if tn == 'dict':
                return True
            if tn is not None or t.tag == 'class':
                return False
        if v.tag == 'tup' and (tn is not None or t.tag == 'class'):
            return tn == 'tuple'
        if v.tag == 'slice' and (tn is not None or t.tag == 'class'):
            return tn == 'slice'
        if is_const(v) and (tn or t.tag == 'class'):
            ty = type(cval(v)).__name__
            if t.tag == 'class':
                return False
            if tn in ('str', 'basestring'):
                return ty == 'str'
            if tn in ('int', 'float', 'bool', 'list', 'tuple', 'dict', 'slice', 'set', 'numpy.ndarray'):
                return ty == tn or (ty == 'bool' and tn == 'int')
        if v.tag in ('func', 'class', 'module') and (tn in ('list', 'tuple', 'dict', 'str', 'int', 'numpy.ndarray')):
            return False
        return None

    def b_range(self, args, kw, n, ctx, st):
        return [(Op('range', *args), st)]

    b_xrange = b_range

    def b_enumerate(self, args, kw, n, ctx, st):
        a = list(args)
        if 'start' in kw:
            a.append(kw['start'])
        if a:
            a[0], st = self.as_iter(a[0], n, ctx, st)
        return [(Op('enumerate', *a), st)]

    def as_iter(self, v, n, ctx, st):
        """one-shot sources become iterator objects, objects with __iter__ what they iterate over"""
        it = self.iterated(v, n, ctx, st)
        if it is not None and not isinstance(it[0], Exc):
            return it
        if v.tag not in ('ref', 'op'):
            r = self.policy.iter_object(self, v, n, ctx.fi, st)
            if r is not None and len(r) == 1 and not isinstance(r[0][0], Exc):
                return r[0]
        return v, st

    def b_zip(self, args, kw, n, ctx, st):
        if any(a.tag == 'starargs' for a in args):
            return None
        if any(a == NONE for a in args):
            return [(Exc('TypeError', node=n, fi=ctx.fi, origin=NONE), st)]
        its = []
        for a in args:
            a, st = self.as_iter(a, n, ctx, st)
            its.append(a)
        return [(Op('zip', *its), st)]

    def b_reversed(self, args, kw, n, ctx, st):
        return [(Op('reversed', *args), st)]

    def b_iter(self, args, kw, n, ctx, st):
        if len(args) != 1:
            return None
        v = args[0]
        r = self.policy.iter_object(self, v, n, ctx.fi, st)
        if r is not None:
            return r
        o = st.obj(v)
        if v == NONE:
            return [(Exc('TypeError', node=n, fi=ctx.fi, origin=v), st)]
        if isinstance(o, HList) and o.kind == 'iter':
            return [(v, st)]
        if isinstance(o, HObj):
            f = self.prog.method(o.cls, '__iter__') if o.cls is not None else None
            if f is None or f.is_generator or self.policy.opaque(self, f, v, st):
                return None
            out = []
            for u, s in self.call_func(f, None, v, [], {}, n, ctx.fi, st):
                out.extend([(u, s)] if isinstance(u, Exc) else (self.b_iter([u], {}, n, ctx, s) or [(Op('iter', u), s)]))
            return out
        if not (isinstance(o, HList) and (o.open or o.kind == 'set')):
            plan, exact = self.iter_plan(v, n, ctx, st)
            if exact:
                st = self.drain(v, st).copy() if v.tag == 'op' else st.copy()
                return [(st.alloc(HList(tuple(plan), kind='iter')), st)]
        return None

    def b_list(self, args, kw, n, ctx, st):
        st = st.copy()
        if not args:
            return [(st.alloc(HList()), st)]
        v = args[0]
        o = st.obj(v)
        if isinstance(o, HList):
            st = self.drain(v, st)
            return [(st.alloc(HList(o.items, o.open)), st)]
        if v.tag == 'tup':
            return [(st.alloc(HList(v.k[1:])), st)]
        if v.tag not in ('ref', 'op'):
            r = self.policy.iter_object(self, v, n, ctx.fi, st)
            if r is not None:
                return [x for u, s in r for x in ([(u, s)] if isinstance(u, Exc) else self.b_list([u], {}, n, ctx, s))]
        if v.tag == 'op' and v.k[1] in ('range', 'enumerate', 'zip', 'reversed', 'items', 'keys', 'values'):
            plan, exact = self.iter_plan(v, n, ctx, st)
            if exact:
                st = self.drain(v, st)
                return [(st.alloc(HList(plan)), st)]
            return [(Op('list', v), st)]
        if isinstance(o, HDict):
            return [(st.alloc(HList([a for a, _ in o.items], o.open)), st)]
        if v == NONE:
            return [(Exc('TypeError', node=n, fi=ctx.fi, origin=v), st)]
        it = self.iterated(v, n, ctx, st)
        if it is not None:
            v2, s2 = it
            if isinstance(v2, Exc):
                return [(v2, s2)]
            return self.b_list([v2], {}, n, ctx, s2)
        st.add_event('listcopy', n, ctx.fi, of=v)
        return [(Op('list', v), st)]

    def iterated(self, v, n, ctx, st):
        """(sequence value, state) for an object with a program-defined __iter__, else None"""
        o = st.obj(v)
        if not isinstance(o, HObj) or o.cls is None:
            return None
        f = self.prog.method(o.cls, '__iter__')
        if f is None or f.is_generator or self.policy.opaque(self, f, v, st):
            return None
        res = self.call_func(f, None, v, [], {}, n, ctx.fi, st)
        if len(res) != 1:
            return None
        return res[0]

    def b_tuple(self, args, kw, n, ctx, st):
        if not args:
            return [(Tup([]), st)]
        v = args[0]
        o = st.obj(v)
        if isinstance(o, HList) and not o.open:
            return [(Tup(o.items), self.drain(v, st))]
        if v.tag == 'tup':
            return [(v, st)]
        if v.tag not in ('ref', 'op'):
            r = self.policy.iter_object(self, v, n, ctx.fi, st)
            if r is not None:
                return [x for u, s in r for x in ([(u, s)] if isinstance(u, Exc) else self.b_tuple([u], {}, n, ctx, s))]
        if v.tag == 'op' and v.k[1] in ('zip', 'enumerate', 'reversed', 'range'):
            plan, exact = self.iter_plan(v, n, ctx, st)
            if exact:
                return [(Tup(plan), self.drain(v, st))]
        return [(Op('tuple', v), st)]

    def b_set(self, args, kw, n, ctx, st):
        st = st.copy()
        if not args:
            return [(st.alloc(HList([], False, 'set')), st)]
        o = st.obj(args[0])
        if isinstance(o, HList):
            return [(st.alloc(HList(list(dict.fromkeys(o.items)), o.open, 'set')), st)]
        if args[0].tag == 'tup':
            return [(st.alloc(HList(list(dict.fromkeys(args[0].k[1:])), False, 'set')), st)]
        return [(Op('set', args[0]), st)]

    def b_dict(self, args, kw, n, ctx, st):
        st = st.copy()
        d = HDict()
        if args:
            o = st.obj(args[0])
            if isinstance(o, HDict):
                d.items, d.open = o.items, o.open
            elif args[0].tag == 'tup' or isinstance(o, HList) or args[0].tag == 'op':
                plan, exact = self.iter_plan(args[0], n, ctx, st)
                for x in plan if exact else ():
                    xo = st.obj(x)
                    xs = list(x.k[1:]) if x.tag == 'tup' else list(xo.items) if isinstance(xo, HList) and not xo.open else ()
                    if len(xs) == 2:
                        d.set(xs[0], xs[1])
                    else:
                        d.open = True
                d.open = d.open or not exact
            else:
                d.open = True
        for k, v in kw.items():
            if k == '**':
                d.open = True
            else:
                d.set(Const(k), v)
        return [(st.alloc(d), st)]

    def b_bool(self, args, kw, n, ctx, st):
        if len(args) != 1:
            return None
        return [((t if isinstance(t, Exc) else Const(t)), s) for t, s in self.truth(args[0], st, n, ctx)]

    def b_str(self, args, kw, n, ctx, st):
        if len(args) == 1 and is_const(args[0]) and isinstance(cval(args[0]), str):
            return [(args[0], st)]
        return [(Op('str', *args), st)]

    def b_repr(self, args, kw, n, ctx, st):
        return [(Op('repr', *args), st)]

    def b_type(self, args, kw, n, ctx, st):
        if len(args) == 1:
            o = st.obj(args[0])
            if isinstance(o, HObj) and o.cls is not None:
                return [(ClassV(o.cls), st)]
            if isinstance(o, HList):
                return [(Ext('list' if o.kind == 'list' else o.kind), st)]
            if isinstance(o, HDict):
                return [(Ext('dict'), st)]
            if args[0].tag == 'tup':
                return [(Ext('tuple'), st)]
        return [(Op('type', *args), st)]

    def b_abs(self, args, kw, n, ctx, st):
        if len(args) == 1 and is_const(args[0]) and isinstance(cval(args[0]), (int, float)):
            return [(Const(abs(cval(args[0]))), st)]
        return [(Op('abs', *args), st)]

    def b_min(self, args, kw, n, ctx, st):
        if len(args) > 1 and all(is_const(a) for a in args):
            try:
                return [(Const(min(cval(a) for a in args)), st)]
            except TypeError:
                pass
        return [(Op('min', *args), st)]

    def b_max(self, args, kw, n, ctx, st):
        if len(args) > 1 and all(is_const(a) for a in args):
            try:
                return [(Const(max(cval(a) for a in args)), st)]
            except TypeError:
                pass
        return [(Op('max', *args), st)]

    def b_sum(self, args, kw, n, ctx, st):
        o = st.obj(args[0]) if args else None
        if isinstance(o, HList) and not o.open:
            acc = Const(0)
            for x in o.items:
                acc = lin_add(acc, x)
                if acc is None:
                    break
            if acc is not None:
                return [(acc, st)]
        return [(Op('sum', *args), st)]

    def _quant(self, args, n, ctx, st, want):
        """any()/all() over a known list: short-circuit over the items"""
        o = st.obj(args[0]) if args else None
        items = o.items if isinstance(o, HList) and not o.open else (args[0].k[1:] if args and args[0].tag == 'tup' else None)
        if items is None:
            return [(Op('any' if want else 'all', *args), st)]
        out, cur = [], [st]
        for x in items:
            nxt = []
            for s in cur:
                for t, s1 in self.truth(x, s, n, ctx):
                    if isinstance(t, Exc):
                        out.append((t, s1))
                    elif t == want:
                        out.append((Const(want), s1))
                    else:
                        nxt.append(s1)
            cur = nxt
        return out + [(Const(not want), s) for s in cur]

    def b_any(self, args, kw, n, ctx, st):
        return self._quant(args, n, ctx, st, True)

    def b_all(self, args, kw, n, ctx, st):
        return self._quant(args, n, ctx, st, False)

    def b_print(self, args, kw, n, ctx, st):
        return [(NONE, st)]

    def b_callable(self, args, kw, n, ctx, st):
        return [(Op('callable', *args), st)]

    def b_hasattr(self, args, kw, n, ctx, st):
        if len(args) == 2 and is_const(args[1]):
            o = st.obj(args[0])
            if isinstance(o, HObj) and o.cls is not None:
                if cval(args[1]) in o.fields or self.prog.lookup(o.cls, cval(args[1])) is not None:
                    return [(TRUE, st)]
        return [(Op('hasattr', *args), st)]

    def b_getattr(self, args, kw, n, ctx, st):
        if len(args) >= 2 and is_const(args[1]) and isinstance(cval(args[1]), str):
            return self.load_attr(args[0], cval(args[1]), n, ctx, st)
        return None

    def b_setattr(self, args, kw, n, ctx, st):
        if len(args) == 3 and is_const(args[1]) and isinstance(cval(args[1]), str) and st.obj(args[0]) is not None:
            return [((NONE if e is None else e), s) for e, s in self.store_attr(args[0], cval(args[1]), args[2], n, ctx, st)]
        return None

    def b_super(self, args, kw, n, ctx, st):
        if args:
            ci = args[0].k[1] if args[0].tag == 'class' else None
            selfv = args[1] if len(args) > 1 else None
        else:
            ci = ctx.owner_cls()
            ps = ctx.fi.params()
            selfv = st.heap[ctx.env.k[1]].vars.get(ps[0][0]) if ps else None
        if ci is None or selfv is None:
            return None
        return [(Super(ci, selfv), st)]

    def b_slice(self, args, kw, n, ctx, st):
        a = list(args)
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        elif len(a) == 2:
            a = [a[0], a[1], NONE]
        return [(V(('slice',) + tuple(a)), st)]

    def drain(self, v, st):
        """state after everything an iterator (or zip of iterators) yields has been taken"""
        o = st.obj(v)
        if isinstance(o, HList) and o.kind == 'iter':
            st = st.copy()
            st.mut(v).items = ()
        elif v.tag == 'op' and v.k[1] in ('zip', 'enumerate', 'iter', 'list', 'tuple'):
            for x in v.k[2:]:
                st = self.drain(x, st)
        return st

    def b_next(self, args, kw, n, ctx, st):
        st = st.copy()
        o = st.obj(args[0]) if args else None
        if isinstance(o, HList) and o.kind == 'iter':
            if o.items:
                m = st.mut(args[0])
                v, m.items = m.items[0], tuple(m.items[1:])
                return [(v, st)]
            if len(args) == 2:
                return [(args[1], st)]
            return [(Exc('StopIteration', node=n, fi=ctx.fi, origin=Ext('next')), st)]
        st.add_event('call', n, ctx.fi, callee=Ext('next'), args=tuple(args), kwargs=(), result=None, name='next')
        val = Call(Ext('next'), args, {}, next(self.uid))
        out = [(val, st)]
        if len(args) == 1:
            out.append((Exc('StopIteration', node=n, fi=ctx.fi, origin=Ext('next')), st.copy()))
        for x in self.policy.may_raise(self, Ext('next'), args, kw, n, ctx.fi, st):
            out.append((Exc(x, node=n, fi=ctx.fi, origin=Ext('next')), st.copy()))
        return out

    def b_issubclass(self, args, kw, n, ctx, st):
        return [(Op('issubclass', *args), st)]

    def sort_items(self, items, kw, n, ctx, st):
        """stable sort with decidable keys -> ([V], State) | Exc | None"""
        keys = []
        for x in items:
            k = x
            if kw.get('key', NONE) != NONE:
                r = self.call(kw['key'], [x], {}, n, ctx, st)
                if len(r) != 1:
                    return None
                k, st = r[0]
                if isinstance(k, Exc):
                    return k, st
            keys.append(k)
        rev = kw.get('reverse', FALSE)
        if not is_const(rev) or not all(const_key(k) is not None for k in keys):
            return None
        try:
            order = sorted(range(len(keys)), key=lambda i: const_key(keys[i])[0], reverse=bool(cval(rev)))
        except TypeError:
            return Exc('TypeError', node=n, fi=ctx.fi, origin='sort'), st
        return [items[i] for i in order], st

    def b_sorted(self, args, kw, n, ctx, st):
        if len(args) == 1:
            plan, ex = self.iter_plan(args[0], n, ctx, st)
            if ex:
                r = self.sort_items(plan, kw, n, ctx, st)
                if r is not None:
                    if isinstance(r[0], Exc):
                        return [r]
                    s2 = r[1].copy()
                    return [(s2.alloc(HList(r[0])), s2)]
        return [(Op('sorted', *args), st)] if not kw else None

    def b_id(self, args, kw, n, ctx, st):
        return [(Op('id', *args), st)]

    def b_int(self, args, kw, n, ctx, st):
        if len(args) == 1 and is_const(args[0]) and isinstance(cval(args[0]), (int, float)):
            return [(Const(int(cval(args[0]))), st)]
        return None

    def container_method(self, b, name, args, kw, n, ctx, st):
        if b.tag == 'objdict':
            return self.objdict_method(b, name, args, kw, n, ctx, st)
        o = st.obj(b)
        if isinstance(o, HList):
            st2 = st.copy()
            if name == 'append' and len(args) == 1:
                m = st2.mut(b)
                m.items = m.items + (args[0],)
                st2.add_event('mutate', n, ctx.fi, target=b, how='append', value=args[0])
                return [(NONE, st2)]
            if name == 'add' and len(args) == 1:
                m = st2.mut(b)
                if args[0] not in m.items:
                    m.items = m.items + (args[0],)
                st2.add_event('mutate', n, ctx.fi, target=b, how='add', value=args[0])
                return [(NONE, st2)]
            if name == 'extend' and len(args) == 1:
                m = st2.mut(b)
                plan, ex = self.iter_plan(args[0], n, ctx, st2)
                m.items = m.items + tuple(plan if ex else ())
                m.open = m.open or not ex
                st2.add_event('mutate', n, ctx.fi, target=b, how='extend', value=args[0])
                return [(NONE, st2)]
            if name == 'insert' and len(args) == 2:
                m = st2.mut(b)
                if is_const(args[0]) and not m.open:
                    it = list(m.items)
                    it.insert(cval(args[0]), args[1])
                    m.items = tuple(it)
                else:
                    m.items, m.open = m.items + (args[1],), True
                st2.add_event('mutate', n, ctx.fi, target=b, how='insert', value=args[1])
                return [(NONE, st2)]
            if name == 'pop':
                m = st2.mut(b)
                st2.add_event('mutate', n, ctx.fi, target=b, how='pop', value=None)
                idx = cval(args[0]) if args and is_const(args[0]) else (-1 if not args else None)
                if idx is not None and not m.open and m.items and -len(m.items) <= idx < len(m.items):
                    it = list(m.items)
                    v = it.pop(idx)
                    m.items = tuple(it)
                    return [(v, st2)]
                m.open = True
                return [(Call(Attr(b, 'pop'), args, kw, next(self.uid)), st2)]
            if name in ('remove', 'discard') and len(args) == 1:
                m = st2.mut(b)
                st2.add_event('mutate', n, ctx.fi, target=b, how=name, value=args[0])
                if args[0] in m.items:
                    it = list(m.items)
                    it.remove(args[0])
                    m.items = tuple(it)
                return [(NONE, st2)]
            if name == 'copy' and not args:
                return [(st2.alloc(HList(o.items, o.open, o.kind)), st2)]
            if name == 'sort' and not o.open:
                r = self.sort_items(list(o.items), kw, n, ctx, st2)
                if r is not None:
                    if isinstance(r[0], Exc):
                        return [r]
                    st2 = r[1].copy()
                    st2.add_event('mutate', n, ctx.fi, target=b, how='sort', value=None)
                    st2.mut(b).items = tuple(r[0])
                    return [(NONE, st2)]
            if name in ('sort', 'reverse', 'clear', 'rotate', 'popleft', 'update'):
                m = st2.mut(b)
                st2.add_event('mutate', n, ctx.fi, target=b, how=name, value=None)
                if name == 'clear':
                    m.items, m.open = (), False
                elif name == 'reverse':
                    m.items = tuple(reversed(m.items))
                elif name == 'rotate':
                    k = cval(args[0]) if args and is_const(args[0]) else None
                    if isinstance(k, int) and m.items:
                        k = k % len(m.items)
                        m.items = m.items[len(m.items) - k:] + m.items[:len(m.items) - k]
                    else:
                        m.open = True
                elif name == 'popleft':
                    if m.items and not m.open:
                        v = m.items[0]
                        m.items = m.items[1:]
                        return [(v, st2)]
                    m.open = True
                elif name == 'update':
                    m.open = True
                return [(NONE, st2)]
            if name == '__contains__' and len(args) == 1:
                return [(self.mk_in(args[0], b, st), st)]
            if name == '__iter__':
                return [(b, st)]
            if o.kind == 'set' and not o.open and name in ('intersection', 'union', 'difference') and len(args) == 1:
                vs, exact = self.iter_plan(args[0], n, ctx, st2)
                its = self.set_combine(name, o.items, vs, st2) if exact else None
                if its is not None:
                    return [(st2.alloc(HList(its, False, 'set')), st2)]
            if name == '__add__' and len(args) == 1:
                return [(self.binop(ast.Add(), b, args[0], st2), st2)]
        if isinstance(o, HDict):
            if name in ('items', 'keys', 'values', 'iteritems', 'itervalues', 'iterkeys') and not args:
                return [(Op(name.replace('iter', ''), b), st)]
            if name == 'get' and args:
                v = o.get(args[0])
                if v is not None:
                    return [(v, st)]
                if not o.open and is_const(args[0]) and all(is_const(a) for a, _ in o.items):
                    return [(args[1] if len(args) > 1 else NONE, st)]
            if name == 'update':
                st2 = st.copy()
                m = st2.mut(b)
                st2.add_event('mutate', n, ctx.fi, target=b, how='update', value=args[0] if args else None)
                for a in args:
                    o2 = st2.obj(a)
                    if isinstance(o2, HDict):
                        for k, v in o2.items:
                            m.set(k, v)
                        m.open = m.open or o2.open
                    else:
                        m.open = True
                for k, v in kw.items():
                    if k == '**':
                        m.open = True
                    else:
                        m.set(Const(k), v)
                return [(NONE, st2)]
            if name == 'pop' and args:
                st2 = st.copy()
                v = o.get(args[0])
                st2.add_event('mutate', n, ctx.fi, target=b, how='pop', value=args[0])
                m = st2.mut(b)
                m.items = tuple((a, x) for a, x in m.items if a != args[0])
                if v is not None:
                    return [(v, st2)]
                return [(Call(Attr(b, 'pop'), args, kw, next(self.uid)), st2)]
            if name == 'copy' and not args:
                st2 = st.copy()
                return [(st2.alloc(HDict(o.items, o.open)), st2)]
            if name == 'clear':
                st2 = st.copy()
                m = st2.mut(b)
                m.items, m.open = (), False
                st2.add_event('mutate', n, ctx.fi, target=b, how='clear', value=None)
                return [(NONE, st2)]
        if is_const(b) and isinstance(cval(b), str) and name in STR_METHODS and not kw and all(is_const(a) for a in args):
            try:
                r = getattr(cval(b), name)(*[cval(a) for a in args])
            except (TypeError, ValueError):
                r = None
            if isinstance(r, list):
                st2 = st.copy()
                return [(st2.alloc(HList([Const(x) for x in r])), st2)]
            if isinstance(r, tuple):
                return [(Tup([Const(x) for x in r]), st)]
            if r is not None:
                return [(Const(r), st)]
        if is_const(b) and isinstance(cval(b), str) and name in ('join', 'format', 'lower', 'upper', 'strip', 'replace', 'startswith', 'endswith'):
            return [(Op('str', b, *args), st)]
        return None

    def set_combine(self, how, xs, ys, st):
        """elements of a combination of two sets, None when an equality is not decided"""
        def same(a, b):
            if a == b:
                return True
            if is_const(a) and is_const(b):
                return cval(a) == cval(b)
            return self.policy.decide(self, self.mk_eq(a, b, st), st)
        out = []
        both = []
        for x in xs:
            eqs = [same(x, y) for y in ys]
            if any(e is None for e in eqs) and not any(e is True for e in eqs):
                return None
            both.append(any(e is True for e in eqs))
        if how == 'intersection':
            return [x for x, t in zip(xs, both) if t]
        if how == 'difference':
            return [x for x, t in zip(xs, both) if not t]
        out = list(xs)
        for y in ys:
            if not any(same(x, y) for x in out):
                out.append(y)
        return out

    def objdict_method(self, b, name, args, kw, n, ctx, st):
        o = st.obj(b.k[1])
        if name == 'update' and len(args) <= 1:
            if args and args[0] == NONE:
                return [(Exc('TypeError', node=n, fi=ctx.fi, origin=NONE), st)]
            st = st.copy()
            pairs = [(Const(k), v) for k, v in kw.items()]
            src = st.obj(args[0]) if args else None
            if isinstance(src, HDict):
                pairs = list(src.items) + pairs
            elif args:
                st.add_event('dictupdate', n, ctx.fi, base=b.k[1], value=args[0])
            for k, v in pairs:
                if is_const(k):
                    st.add_event('store', n, ctx.fi, base=b.k[1], name=cval(k), value=v)
                    st.mut(b.k[1]).fields[cval(k)] = v
            return [(NONE, st)]
        if name == 'get' and args and is_const(args[0]):
            if cval(args[0]) in o.fields:
                return [(o.fields[cval(args[0])], st)]
            return None
        if name in ('copy', 'items', 'keys', 'values') and not args:
            st = st.copy()
            d = st.alloc(HDict([(Const(k), v) for k, v in o.fields.items()], True))
            return [(d if name == 'copy' else Op(name, d), st)]
        return None

    # ------------------------------------------------------------ conditions
    def cond(self, e, ctx, st):
        """-> list of (bool|Exc, State)"""
        out = []
        for v, s in self.eval(e, ctx, st):
            if isinstance(v, Exc):
                out.append((v, s))
            else:
                out.extend(self.truth(v, s, e, ctx))
        return out

    def truth(self, v, st, n, ctx):
        t = self.static_truth(v, st)
        if t is not None:
            return [(t, st)]
        if v.tag == 'op' and v.k[1] == 'not':
            return [((b if isinstance(b, Exc) else (not b)), s) for b, s in self.truth(v.k[2], st, n, ctx)]
        o = st.obj(v)
        if isinstance(o, HObj) and o.cls is not None:
            m = self.prog.method(o.cls, '__bool__') or self.prog.method(o.cls, '__len__')
            if m is not None and not m.is_generator and not self.policy.opaque(self, m, v, st):
                res = self.call_func(m, None, v, [], {}, n, ctx.fi, st)
                if all(not isinstance(r, Exc) and is_const(r) for r, s in res):
                    return [(bool(cval(r)), s) for r, s in res]
        key, pol = literal(v)
        known = self.lookup_fact(key, st)
        if known is not None:
            return [(known == pol, st)]
        d = self.policy.decide(self, key, st)
        if d is not None:
            if not self.policy.cache:
                return [(d == pol, st)]
            s = st.copy()
            s.facts[key] = d
            return [(d == pol, s)]
        # objects with __len__/__bool__ in the program
        a, b = st.copy(), st.copy()
        a.facts[key] = True
        b.facts[key] = False
        for s, val in ((a, True), (b, False)):
            s.add_event('branch', n, ctx.fi, term=key, value=val)
        return [(pol, a), (not pol, b)]

    def lookup_fact(self, key, st):
        if key in st.facts:
            return st.facts[key]
        if key.tag == 'op' and key.k[1] == '==':
            # two different constants cannot both be equal
            a, b = key.k[2], key.k[3]
            for x, y in ((a, b), (b, a)):
                if is_const(y):
                    for f, val in st.facts.items():
                        if val and f.tag == 'op' and f.k[1] == '==' and x in f.k[2:]:
                            other = f.k[2] if f.k[3] == x else f.k[3]
                            if is_const(other) and other != y:
                                return False
                    if cval(y) is not None and st.facts.get(Op('is', *sorted((x, NONE), key=repr))) is True:
                        return False
        if key.tag == 'op' and key.k[1] == '<' and is_const(key.k[3]) and isinstance(cval(key.k[3]), (int, float)):
            t, c = key.k[2], cval(key.k[3])
            for f, val in st.facts.items():
                if f.tag == 'op' and f.k[1] == '<' and f.k[2] == t and is_const(f.k[3]) and isinstance(cval(f.k[3]), (int, float)):
                    c2 = cval(f.k[3])
                    if val and c2 <= c:
                        return True
                    if not val and c2 >= c:
                        return False
                elif val and f.tag == 'op' and f.k[1] == '==' and t in f.k[2:]:
                    other = f.k[2] if f.k[3] == t else f.k[3]
                    if is_const(other) and isinstance(cval(other), (int, float)):
                        return cval(other) < c
        if key.tag == 'op' and key.k[1] == 'is' and NONE in key.k[2:]:
            x = key.k[2] if key.k[3] == NONE else key.k[3]
            for f, val in st.facts.items():
                if f == x and val:
                    return False
                if val and f.tag == 'op' and f.k[1] == 'isinstance' and f.k[2] == x:
                    return False
        if key.tag in ('attr', 'sym', 'item', 'call'):
            if st.facts.get(Op('is', *sorted((key, NONE), key=repr))) is True:
                return False
            if st.facts.get(Op('nonempty', key)) is not None and False:
                return st.facts[Op('nonempty', key)]
        return None

    def static_truth(self, v, st):
        if v.tag == 'const':
            return bool(cval(v))
        if v.tag in ('class', 'func', 'module', 'ext', 'slice', 'super'):
            return True
        if v.tag == 'tup':
            return len(v.k) > 1
        o = st.obj(v)
        if isinstance(o, HList) or isinstance(o, HDict):
            if o.items:
                return True
            return None if o.open else False
        if isinstance(o, HObj):
            if o.cls is not None and (self.prog.method(o.cls, '__len__') or self.prog.method(o.cls, '__bool__')):
                return None
            return True
        return None


TYPE_NAMES = ('list', 'tuple', 'dict', 'set', 'deque', 'iter', 'str', 'int', 'float', 'bool', 'numpy.ndarray')


def const_key(v):
    if v.tag == 'const':
        return (cval(v),)
    if v.tag == 'tup':
        ks = [const_key(x) for x in v.k[1:]]
        if all(k is not None for k in ks):
            return (tuple(k[0] for k in ks),)
    return None


def seq_index_error(o, i):
    """exception class name when indexing a closed list/deque with i must fail"""
    if i.tag == 'slice':
        return 'TypeError' if o.kind == 'deque' else None
    if is_const(i):
        if not isinstance(cval(i), int):
            return 'TypeError'
        if not -len(o.items) <= cval(i) < len(o.items):
            return 'IndexError'
    return None


class _CompAppend(ast.stmt):
    _fields = ()

    def __init__(self, acc, elt, kind, src):
        self.acc, self.elt, self.kind = acc, elt, kind
        self.lineno = getattr(src, 'lineno', 0)
        self.col_offset = 0


class Ctx(object):
    def __init__(self, fi, env):
        self.fi = fi
        self.env = env

    def owner_cls(self):
        f = self.fi
        while f is not None:
            if f.cls is not None:
                return f.cls
            f = f.parent
        return None

    def current_exc(self, st):
        c = st.notes.get('cur_exc', ())
        return c[-1] if c else None


_funcs = {}


def _intern_func(fi):
    """one FuncInfo per syntax node, so closures made twice compare equal"""
    k = id(fi.node)
    if k not in _funcs:
        _funcs[k] = fi
    return _funcs[k]


_local_cache = {}


def _is_local(fi, name):
    k = id(fi.node)
    if k not in _local_cache:
        names = set()
        for n in walk_scope(fi.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    names.add((a.asname or a.name).split('.')[0])
        _local_cache[k] = (fi.node, names)
    return name in _local_cache[k][1]


_rebound_cache = {}


def _rebound(m, name):
    k = id(m)
    if k not in _rebound_cache:
        names = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                names.update(n.names)
        _rebound_cache[k] = (m, names)
    return name in _rebound_cache[k][1]


def _tnames(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def _as_load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def neg(t):
    if is_const(t):
        return Const(not cval(t))
    if t.tag == 'op' and t.k[1] == 'not':
        return t.k[2]
    return Op('not', t)


def literal(v):
    if v.tag == 'op' and v.k[1] == 'not':
        k, p = literal(v.k[2])
        return k, not p
    if v.tag == 'op' and v.k[1] in ('==',) and False:
        pass
    # truth of  x == True/False
    if v.tag == 'op' and v.k[1] in ('==', 'is'):
        for a, b in ((v.k[2], v.k[3]), (v.k[3], v.k[2])):
            if is_const(b) and isinstance(cval(b), bool) and a.tag in ('attr', 'sym', 'call', 'op'):
                k, p = literal(a)
                return k, (p if cval(b) else not p)
    return v, True


def callee_name(f):
    """readable dotted name of an opaque callee; last component is what rules match on"""
    t = f.tag
    if t == 'ext':
        return f.k[1]
    if t == 'attr':
        return callee_name(f.k[1]) + '.' + f.k[2]
    if t == 'func':
        return f.k[1].qualname
    if t == 'class':
        return f.k[1].name
    return show(f)
