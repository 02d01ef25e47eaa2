"""May-alias and side-effect analysis.

Values are sets of abstract locations; arrays that alias a location (views, casts
that may return their argument) carry it along, results of numerical operations
carry none.  Locals are flow-sensitive (joined at merges, loops to a fixpoint),
object fields and container elements are flow-insensitive.  Program functions are
followed at every call with their argument locations.  Recorded effects:

  ('mut', location, how, function, node)     in-place modification
  ('store', location, field, value, function, node)   attribute assignment
  ('global', name, function, node)           assignment to a module variable
"""
import ast

from .model import ClassInfo, FuncInfo, canon_ext, dotted

EMPTY = frozenset()


class AV(object):
    __slots__ = ('locs', 'arr', 'fns')

    def __init__(self, locs=EMPTY, arr=False, fns=EMPTY):
        self.locs, self.arr, self.fns = locs, arr, fns

    def __or__(self, o):
        if o is NOTHING or o == self:
            return self
        if self is NOTHING:
            return o
        return AV(self.locs | o.locs, self.arr or o.arr, self.fns | o.fns)

    def __eq__(self, o):
        return self.locs == o.locs and self.arr == o.arr and self.fns == o.fns

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.locs, self.arr, self.fns))

    def __repr__(self):
        return 'AV(%s%s%s)' % (', '.join(sorted(map(locname, self.locs))), ' array' if self.arr else '', ' fns' if self.fns else '')


NOTHING = AV()
FRESH = AV()
ARRAY = AV(arr=True)


def locname(l):
    t = l[0]
    if t == 'P':
        return l[1]
    if t == 'O':
        return '%s' % (l[1],)
    if t == 'A':
        return 'container@%s' % (l[2],)
    if t == 'F':
        return '%s.%s' % (locname(l[1]), l[2])
    if t == 'E':
        return '%s[]' % locname(l[1])
    return str(l)


def root(l):
    while l[0] in ('F', 'E'):
        l = l[1]
    return l


def depth(l):
    n = 0
    while l[0] in ('F', 'E'):
        l, n = l[1], n + 1
    return n


# library functions returning (a view of) their first argument
VIEW_FUNCS = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'transpose',
              'squeeze', 'swapaxes', 'rollaxis', 'moveaxis', 'real', 'imag', 'diagonal', 'broadcast_to', 'expand_dims', 'rot90', 'flipud', 'fliplr',
              'flip', 'split', 'array_split', 'hsplit', 'vsplit', 'real_if_close', 'asmatrix', 'require', 'lib.stride_tricks.as_strided', 'view'}
VIEW_ATTRS = {'T', 'real', 'imag', 'flat', 'base', 'H', 'mT'}
SCALAR_ATTRS = {'shape', 'dtype', 'size', 'ndim', 'itemsize', 'nbytes', 'strides', 'flags', '__name__', '__class__', '__doc__', '__module__'}
VIEW_METHODS = {'view', 'reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'diagonal', 'real', 'imag', '__getitem__', 'get', 'setdefault'}
ARRAY_MUT = {'sort', 'fill', 'put', 'resize', 'itemset', 'partition', 'setflags', 'setfield'}
CONT_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'add', 'discard', 'popitem', 'setdefault', 'reverse', 'rotate',
            'appendleft', 'popleft', 'extendleft', '__setitem__', '__delitem__'}
FUNC_MUT = {'put', 'place', 'copyto', 'fill_diagonal', 'putmask', 'random.shuffle', 'add.at', 'subtract.at', 'random.mtrand.shuffle', 'put_along_axis'}
UNARY_UFUNC = {'sqrt', 'exp', 'log', 'absolute', 'abs', 'negative', 'tanh', 'sin', 'cos', 'square', 'sign', 'log10', 'log2', 'arctan', 'reciprocal',
               'floor', 'ceil', 'rint', 'conjugate', 'sinh', 'cosh', 'tan', 'isfinite', 'isnan'}
BINARY_UFUNC = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'power', 'maximum', 'minimum', 'mod', 'remainder', 'dot', 'outer',
                'logical_and', 'logical_or', 'greater', 'less', 'arctan2', 'hypot', 'fmod'}
COPY_BUILTINS = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'dict', 'iter', 'reversed', 'enumerate', 'zip', 'map', 'filter', 'chain', 'islice', 'OrderedDict'}
SCALAR_BUILTINS = {'len', 'int', 'float', 'str', 'bool', 'repr', 'isinstance', 'issubclass', 'hasattr', 'callable', 'range', 'id', 'hash', 'print', 'round',
                   'format', 'open', 'abs', 'type', 'any', 'all', 'complex', 'ord', 'chr', 'slice', 'object', 'Exception', 'input', 'exit', 'bytes', 'unicode', 'basestring'}
MAXDEPTH = 5


class Frame(object):
    def __init__(self, fi, closure=None):
        self.fi = fi
        self.closure = closure       # enclosing environments (shared dictionaries)
        self.ret = NOTHING
        self.yields = NOTHING
        self.globals = set()
        self.nonlocals = set()
        self.seen_calls = 0


class Effects(object):
    def __init__(self, prog, contracts=None, max_inline=14):
        self.prog = prog
        self.heap = {}
        self.arity = {}
        self.names = {}              # keyword containers: location -> names (None: unknown)
        self.ncalls = 0
        self.defaults = {}           # containers made once as default values
        self.lazy = EMPTY            # (location, field) known to be None or missing: storing them initialises
        self.nesting = 0
        self.skip = frozenset()      # functions that are not followed
        self.track_fields = False    # arrays kept in attributes are locations of their own
        self.effects = {}            # key -> effect tuple with the entry under which it was found
        self.memo = {}
        self.busy = set()
        self.changed = False
        self.max_inline = max_inline
        self.level = 0
        self.entry = None
        self.closures = {}
        self.funcs = set()
        self.contracts = contracts or {}
        self.chain = []
        self.data = set()            # parameter locations known to be arrays
        self.calls = 0
        self.extcalls = {}           # external function -> places

    # ------------------------------------------------------------------ heap
    def hget(self, loc, field):
        v = self.heap.get((loc, field))
        if loc[0] in ('P', 'E', 'F') or (loc[0] == 'O' and loc[2] is None):
            d = ('E', loc) if field == '*' else ('F', loc, field)
            if depth(d) > MAXDEPTH:
                d = loc
            dv = AV(frozenset([d]), arr=(field == '*' and root(loc) in self.data))
            return dv if v is None else v | dv
        return v if v is not None else NOTHING

    def hadd(self, loc, field, v):
        old = self.heap.get((loc, field), NOTHING)
        new = old | v
        if new != old:
            self.heap[(loc, field)] = new
            self.changed = True

    def obj(self, key, ci):
        return AV(frozenset([('O', key, ci)]))

    def container(self, node, fr, elems=NOTHING, positional=None):
        loc = ('A', (id(node), tuple(id(c) for c in self.chain[-1:])), 'line %d' % getattr(node, 'lineno', 0))
        if elems is not NOTHING:
            self.hadd(loc, '*', elems)
        if positional is not None:
            n = self.arity.setdefault(loc, len(positional))
            if n != len(positional):
                self.arity[loc] = -1
            for i, v in enumerate(positional):
                self.hadd(loc, '#%d' % i, v)
                self.hadd(loc, '*', v)
        return AV(frozenset([loc]))

    def elements(self, v):
        if v.arr and not any(l[0] == 'A' for l in v.locs):
            return AV(v.locs, True)
        r = NOTHING
        for l in v.locs:
            if l[0] == 'O':
                m = self.prog.method(l[2], '__iter__') if l[2] is not None else None
                if m is None:
                    r = r | self.hget(l, '*')
                    continue
                it = self.call(m, AV(frozenset([l])), [], {}, m.node, None)
                if l in it.locs:
                    nx = self.prog.method(l[2], '__next__')
                    if nx is not None:
                        r = r | self.call(nx, AV(frozenset([l])), [], {}, nx.node, None)
                    it = AV(it.locs - {l}, it.arr)
                if it.locs and self.nesting < 6:
                    self.nesting += 1
                    r = r | self.elements(it)
                    self.nesting -= 1
            else:
                r = r | self.hget(l, '*')
        if v.arr:
            r = AV(r.locs, True, r.fns)
        return r

    # --------------------------------------------------------------- effects
    def note(self, kind, *data):
        k = (kind,) + data
        if k not in self.effects:
            self.effects[k] = self.entry
        return k

    def own(self, e, fr):
        """a local that is only ever bound to containers made by the running call"""
        if not isinstance(e, ast.Name):
            return False
        key = (id(fr.fi.node), e.id)
        if key not in self.owned:
            ok = bool(fr.fi.node) and not isinstance(fr.fi.node, ast.Lambda) and all(p[0] != e.id for p in fr.fi.params())
            found = False
            for n in ast.walk(fr.fi.node) if ok else ():
                if isinstance(n, ast.Name) and n.id == e.id and not isinstance(n.ctx, ast.Load):
                    found = True
                elif isinstance(n, (ast.Global, ast.Nonlocal)) and e.id in n.names:
                    ok = False
            stores = [n for n in ast.walk(fr.fi.node) if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store)] if ok else []
            for n in ast.walk(fr.fi.node) if ok else ():
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id:
                    v = n.value
                    if isinstance(v, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'dict', 'set'):
                        stores.remove(n.targets[0])
            self.owned[key] = ok and found and not stores
        return self.owned[key]

    owned = {}

    def mutate(self, v, how, node, fr, force=True, on=None):
        if on is not None and self.own(on, fr):
            return
        for l in v.locs:
            self.note('mut', l, how, fr.fi, node, force)

    # ---------------------------------------------------------------- calling
    def run(self, fi, selfv, args, kwargs=None, entry=None):
        self.entry = entry or fi.qualname
        self.memo = {}
        return self.call(fi, selfv, list(args), dict(kwargs or {}), fi.node, None)

    def call(self, fi, selfv, args, kwargs, node, fr, closure=None, starargs=NOTHING, starkw=NOTHING):
        self.ncalls += 1
        if fi.name in self.skip:
            return NOTHING
        key = (id(fi.node), selfv, tuple(args), tuple(sorted(kwargs.items(), key=lambda k: k[0])), starargs, starkw, id(closure) if closure else 0, self.lazy)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy or self.level > self.max_inline or sum(1 for c in self.chain if c is fi.node) > 2:
            return NOTHING
        self.busy.add(key)
        self.level += 1
        self.chain.append(fi.node)
        self.funcs.add(fi)
        self.calls += 1
        f = Frame(fi, closure)
        env = {}
        params = fi.params()
        pos = list(args)
        if selfv is not None and fi.cls is not None and not fi.is_static and not isinstance(fi.node, ast.Lambda):
            pos = [selfv] + pos
        elif isinstance(fi.node, ast.Lambda) and selfv is not None:
            pos = [selfv] + pos
        kw = dict(kwargs)
        # positional and keyword containers of known shape are spread over the parameters
        sl = list(starargs.locs)
        if sl and not starargs.arr and all(l[0] == 'A' and self.arity.get(l, -1) == self.arity.get(sl[0], -1) >= 0 for l in sl):
            for i in range(self.arity[sl[0]]):
                v = NOTHING
                for l in sl:
                    v = v | self.heap.get((l, '#%d' % i), NOTHING)
                pos.append(v)
            starargs = NOTHING
        sl = list(starkw.locs)
        if sl and all(l[0] == 'A' and self.names.get(l) is not None for l in sl):
            for l in sl:
                for k in self.names[l]:
                    kw[k] = kw.get(k, NOTHING) | self.heap.get((l, '=' + k), NOTHING)
            starkw = NOTHING
        for name, hasd, d, kind in params:
            if kind == 'pos':
                if pos:
                    v = pos.pop(0)
                    if name in kw:
                        v = v | kw.pop(name)
                elif name in kw:
                    v = kw.pop(name)
                else:
                    v = NOTHING
                    if starargs is not NOTHING:
                        v = v | self.elements(starargs)
                    if starkw is not NOTHING:
                        v = v | self.elements(starkw)
                    if hasd and d is not None:
                        dv = self.eval(d, {}, f)
                        for l in dv.locs:
                            if l[0] == 'A' and fi.parent is None:
                                self.defaults[l] = 'default of %s in %s' % (name, fi.qualname)
                        v = v | dv
                env[name] = v
            elif kind == 'kwonly':
                env[name] = kw.pop(name, NOTHING)
            elif kind == 'var':
                env[name] = self.container(fi.node.args.vararg, f, positional=pos)
                if starargs is not NOTHING:
                    for l in env[name].locs:
                        self.hadd(l, '*', self.elements(starargs))
                        self.arity[l] = -1
                pos = []
            else:
                e = NOTHING
                for x in kw.values():
                    e = e | x
                if starkw is not NOTHING:
                    e = e | self.elements(starkw)
                env[name] = self.container(fi.node.args.kwarg, f, e)
                for l in env[name].locs:
                    if starkw is not NOTHING or self.names.get(l, ()) is None:
                        self.names[l] = None
                    else:
                        self.names[l] = self.names.get(l, EMPTY) | frozenset(kw)
                        for k, x in kw.items():
                            self.hadd(l, '=' + k, x)
        lazy = self.lazy
        self.block(fi.body(), env, f)
        self.lazy = lazy
        r = f.ret
        if fi.is_generator:
            r = self.container(fi.node, f, f.yields)
        self.chain.pop()
        self.level -= 1
        self.busy.discard(key)
        self.memo[key] = r
        return r

    # -------------------------------------------------------------- statements
    def block(self, stmts, env, fr):
        """False when the end of the block is not reached"""
        for n in stmts:
            if self.stmt(n, env, fr) is False:
                return False
        return True

    @staticmethod
    def join(env, envs):
        keys = set()
        for e in envs:
            keys |= set(e)
        env_new = {}
        for k in keys:
            v = NOTHING
            if '.' in k and not all(k in e for e in envs):
                continue
            for e in envs:
                if k in e:
                    v = v | e[k]
            env_new[k] = v
        env.clear()
        env.update(env_new)

    def stmt(self, n, env, fr):
        t = type(n)
        if t is ast.Expr:
            self.eval(n.value, env, fr)
        elif t is ast.Assign:
            v = self.eval(n.value, env, fr)
            for tg in n.targets:
                self.assign(tg, v, env, fr, n, n.value)
        elif t is ast.AnnAssign:
            if n.value is not None:
                self.assign(n.target, self.eval(n.value, env, fr), env, fr, n, n.value)
        elif t is ast.AugAssign:
            self.augassign(n, env, fr)
        elif t is ast.Return:
            if n.value is not None:
                fr.ret = fr.ret | self.eval(n.value, env, fr)
            return False
        elif t is ast.If:
            self.eval(n.test, env, fr)
            e1, e2 = dict(env), dict(env)
            self.narrow(n.test, e1, e2)
            lazy, (z1, z2) = self.lazy, self.unset(n.test, env, fr)
            self.lazy = lazy | z1
            r1 = self.block(n.body, e1, fr)
            self.lazy = lazy | z2
            r2 = self.block(n.orelse, e2, fr)
            self.lazy = lazy | (z2 if not r1 else EMPTY) | (z1 if not r2 else EMPTY)
            live = [e for e, r in ((e1, r1), (e2, r2)) if r]
            if not live:
                return False
            self.join(env, live)
        elif t in (ast.For, ast.AsyncFor):
            it = self.eval(n.iter, env, fr)
            saved = getattr(fr, 'breaks', None)
            fr.breaks = []
            for _ in range(5):
                before = dict(env)
                e = dict(env)
                self.assign(n.target, self.elements(it), e, fr, n)
                ok = self.block(n.body, e, fr)
                self.join(env, [before] + ([e] if ok else []) + fr.breaks)
                if env == before:
                    break
            fr.breaks = saved if saved is not None else []
            self.block(n.orelse, env, fr)
        elif t is ast.While:
            saved = getattr(fr, 'breaks', None)
            fr.breaks = []
            forever = isinstance(n.test, ast.Constant) and n.test.value
            for _ in range(5):
                before = dict(env)
                self.eval(n.test, env, fr)
                e = dict(env)
                ok = self.block(n.body, e, fr)
                self.join(env, [before] + ([e] if ok else []) + fr.breaks)
                if env == before:
                    break
            nb = len(fr.breaks)
            fr.breaks = saved if saved is not None else []
            self.block(n.orelse, env, fr)
            if forever and not nb:
                return False
        elif t in (ast.Break, ast.Continue):
            if getattr(fr, 'breaks', None) is not None:
                fr.breaks.append(dict(env))
            return False
        elif t is ast.Try or t.__name__ == 'TryStar':
            before = dict(env)
            e = dict(env)
            r = self.block(n.body, e, fr)
            if r:
                r = self.block(n.orelse, e, fr)
            live = [e] if r else []
            for h in n.handlers:
                eh = dict(before)
                self.join(eh, [before, e])
                if h.name:
                    eh[h.name] = FRESH
                if self.block(h.body, eh, fr):
                    live.append(eh)
            if not live:
                ef = dict(before)
                self.join(ef, [before, e])
                self.block(n.finalbody, ef, fr)
                return False
            self.join(env, live)
            if self.block(n.finalbody, env, fr) is False:
                return False
        elif t in (ast.With, ast.AsyncWith):
            for it in n.items:
                v = self.eval(it.context_expr, env, fr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env, fr, n)
            return self.block(n.body, env, fr)
        elif t is ast.FunctionDef:
            env[n.name] = self.closure(n, env, fr)
        elif t is ast.ClassDef:
            env[n.name] = FRESH
        elif t is ast.Raise:
            if n.exc is not None:
                self.eval(n.exc, env, fr)
            return False
        elif t is ast.Delete:
            for tg in n.targets:
                if isinstance(tg, ast.Subscript):
                    self.mutate(self.eval(tg.value, env, fr), 'del item', n, fr, on=tg.value)
                elif isinstance(tg, ast.Attribute):
                    b = self.eval(tg.value, env, fr)
                    for l in b.locs:
                        self.note('store', l, tg.attr, NOTHING, fr.fi, n)
                elif isinstance(tg, ast.Name):
                    env.pop(tg.id, None)
        elif t is ast.Global:
            fr.globals |= set(n.names)
        elif t is ast.Nonlocal:
            fr.nonlocals |= set(n.names)
        elif t is ast.Assert:
            self.eval(n.test, env, fr)
        elif t in (ast.Import, ast.ImportFrom):
            for a in n.names:
                nm = (a.asname or a.name).split('.')[0]
                env[nm] = AV(fns=frozenset([('mod', ('import', a.name if t is ast.Import else '%s.%s' % (n.module or '', a.name)))]))
        return True

    def narrow(self, test, e1, e2):
        """a name that is None, empty or false in one branch aliases nothing there"""
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.ops[0], (ast.Is, ast.Eq)):
                e1[test.left.id] = NOTHING
            elif isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
                e2[test.left.id] = NOTHING
        elif isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not) and isinstance(test.operand, ast.Name):
            e1[test.operand.id] = NOTHING
        elif isinstance(test, ast.Name):
            e2[test.id] = NOTHING

    def unset(self, test, env, fr):
        """fields that are None or missing where the test holds, and where it does not"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            a, b = self.unset(test.operand, env, fr)
            return b, a
        if isinstance(test, ast.BoolOp):
            zs = [self.unset(x, env, fr) for x in test.values]
            k = 0 if isinstance(test.op, ast.And) else 1
            r = frozenset().union(*[z[k] for z in zs])
            return (r, EMPTY) if k == 0 else (EMPTY, r)
        base = field = None
        neg = False
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Attribute) and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            base, field = test.left.value, test.left.attr
            neg = isinstance(test.ops[0], (ast.IsNot, ast.NotEq))
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'hasattr' and len(test.args) == 2 \
                and isinstance(test.args[1], ast.Constant):
            base, field, neg = test.args[0], test.args[1].value, True
        if base is None:
            return EMPTY, EMPTY
        r = frozenset((l, '*' if l[0] == 'O' and l[2] is not None and self.getter(l[2], field) is not None else field)
                      for l in self.eval(base, env, fr).locs)
        return (EMPTY, r) if neg else (r, EMPTY)

    def add_name(self, l, key, v):
        if self.names.get(l) is not None and isinstance(key, ast.Constant) and isinstance(key.value, str):
            self.names[l] |= {key.value}
            self.hadd(l, '=' + key.value, v)
        elif l in self.names:
            self.names[l] = None

    def sync(self, env, fr):
        """fields known in this frame are forgotten when a function of the program was called"""
        if fr.seen_calls != self.ncalls:
            fr.seen_calls = self.ncalls
            for k in [k for k in env if '.' in k]:
                del env[k]

    def field_key(self, e, b):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and len(b.locs) == 1 and not b.fns:
            return '%s.%s' % (e.value.id, e.attr)
        return None

    def closure(self, n, env, fr):
        k = (id(n), id(env))
        fi = self.closures.get(k)
        if fi is None:
            fi = self.closures[k] = (FuncInfo(n, fr.fi.module, None, fr.fi), (env, fr.closure))
        return AV(fns=frozenset([('fn', k)]))

    def assign(self, tg, v, env, fr, n, src=None):
        t = type(tg)
        if t is ast.Name:
            if tg.id in fr.globals:
                self.note('global', '%s.%s' % (fr.fi.module.name, tg.id), fr.fi, n)
                self.hadd(('G', fr.fi.module.name), tg.id, v)
            else:
                env[tg.id] = v
                for k in [k for k in env if k.startswith(tg.id + '.')]:
                    del env[k]
                if tg.id in fr.nonlocals:
                    c = fr.closure
                    while c is not None:
                        if tg.id in c[0]:
                            c[0][tg.id] = c[0][tg.id] | v
                        c = c[1]
        elif t in (ast.Tuple, ast.List):
            k = len(tg.elts)
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == k and not any(isinstance(x, ast.Starred) for x in list(src.elts) + list(tg.elts)):
                vals = [self.heap.get((l, '#%d' % i), NOTHING) for i in range(k) for l in list(v.locs)[:1]]
                if len(vals) != k:
                    vals = [self.elements(v)] * k
            else:
                vals = []
                for i in range(k):
                    r = NOTHING
                    for l in v.locs:
                        if l[0] == 'A' and self.arity.get(l) == k:
                            r = r | self.heap.get((l, '#%d' % i), NOTHING)
                        else:
                            r = r | self.elements(AV(frozenset([l]), v.arr))
                    if v.arr:
                        r = AV(r.locs, True, r.fns)
                    vals.append(r)
            for x, y in zip(tg.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, self.container(x, fr, y) if isinstance(x, ast.Starred) else y, env, fr, n)
        elif t is ast.Attribute:
            b = self.eval(tg.value, env, fr)
            self.store_attr(b, tg.attr, v, n, fr)
            self.sync(env, fr)
            for k in [k for k in env if k.endswith('.' + tg.attr)]:
                del env[k]
            k = self.field_key(tg, b)
            l = next(iter(b.locs)) if k else None
            if k and l[0] == 'O' and (l[2] is None or self.setter(l[2], tg.attr) is None):
                env[k] = v
        elif t is ast.Subscript:
            b = self.eval(tg.value, env, fr)
            self.eval(tg.slice, env, fr)
            self.mutate(b, 'item assignment', n, fr, on=tg.value)
            for l in b.locs:
                if l[0] != 'P':
                    self.hadd(l, '*', v)
                if l[0] == 'A':
                    self.add_name(l, tg.slice, v)
        elif t is ast.Starred:
            self.assign(tg.value, v, env, fr, n)

    def store_attr(self, b, name, v, n, fr):
        for l in b.locs:
            ci = l[2] if l[0] == 'O' else None
            if ci is not None:
                s = self.setter(ci, name)
                if s is not None:
                    self.call(s, AV(frozenset([l])), [v], {}, n, fr)
                    continue
            if name in ('shape', 'flat', 'dtype') and l[0] != 'O' and (b.arr or root(l) in self.data):
                self.mutate(AV(frozenset([l])), 'assignment to .%s' % name, n, fr)
            if (l, name) not in self.lazy and (l, '*') not in self.lazy:
                self.note('store', l, name, v, fr.fi, n)
            self.hadd(l, name, v)

    def setter(self, ci, name):
        for k in self.prog.mro(ci):
            if not isinstance(k, ClassInfo):
                continue
            if name in k.setters:
                return k.setters[name]
            if name in k.assigns:
                e = k.assigns[name]
                if isinstance(e, ast.Call) and dotted(e.func) == 'property':
                    kws = {x.arg: x.value for x in e.keywords}
                    f = e.args[1] if len(e.args) > 1 else kws.get('fset')
                    return self.accessor(f, k, ci)
                return None
            if name in k.methods:
                return None
        return None

    def getter(self, ci, name):
        for k in self.prog.mro(ci):
            if not isinstance(k, ClassInfo):
                continue
            if name in k.methods:
                return k.methods[name] if k.methods[name].is_property else None
            if name in k.assigns:
                e = k.assigns[name]
                if isinstance(e, ast.Call) and dotted(e.func) == 'property':
                    kws = {x.arg: x.value for x in e.keywords}
                    f = e.args[0] if e.args else kws.get('fget')
                    return self.accessor(f, k, ci)
                return None
        return None

    def accessor(self, f, k, ci):
        if isinstance(f, ast.Name) and f.id in k.methods:
            return k.methods[f.id]
        if isinstance(f, ast.Lambda):
            key = ('acc', id(f))
            if key not in self.closures:
                self.closures[key] = FuncInfo(f, k.module, k)
            return self.closures[key]
        return None

    def augassign(self, n, env, fr):
        rhs = self.eval(n.value, env, fr)
        tg = n.target
        if isinstance(tg, ast.Name):
            cur = self.load_name(tg.id, env, fr)
            if not isinstance(n.value, ast.Tuple):        # x += (a, b) builds a new tuple
                self.inplace(cur, rhs, n, fr)
            if not isinstance(n.op, ast.Add) or rhs.arr or cur.arr:
                env[tg.id] = AV(cur.locs, cur.arr or rhs.arr, cur.fns)
            else:
                env[tg.id] = cur
        elif isinstance(tg, ast.Attribute):
            b = self.eval(tg.value, env, fr)
            cur = self.load_attr(b, tg.attr, n, fr)
            self.inplace(cur, rhs, n, fr)
            for l in b.locs:
                self.note('store', l, tg.attr, cur, fr.fi, n)
                if rhs.arr and l[0] in ('O', 'F', 'E'):
                    self.hadd(l, tg.attr, AV(arr=True))
        elif isinstance(tg, ast.Subscript):
            b = self.eval(tg.value, env, fr)
            self.eval(tg.slice, env, fr)
            cur = self.load_item(b, tg.slice, n, env, fr)
            self.mutate(b, 'item assignment', n, fr, on=tg.value)
            self.inplace(cur, rhs, n, fr)
            for l in b.locs:
                if l[0] == 'A' and rhs.arr:
                    self.hadd(l, '*', ARRAY)

    def inplace(self, cur, rhs, n, fr):
        op = type(n.op).__name__
        for l in cur.locs:
            # numbers and strings are rebound, only arrays and containers change in place
            sure = root(l) in self.data or rhs.arr or cur.arr or (op == 'Add' and any(x[0] == 'A' for x in rhs.locs))
            self.note('mut', l, 'in-place operator', fr.fi, n, sure)
            if l[0] == 'A' and op == 'Add':
                self.hadd(l, '*', self.elements(rhs))

    # -------------------------------------------------------------- expressions
    def load_name(self, name, env, fr):
        if name in env and name not in fr.globals:
            return env[name]
        c = fr.closure
        while c is not None:
            if name in c[0]:
                return c[0][name]
            c = c[1]
        r = self.prog.resolve_in(fr.fi.module, name)
        return self.resolved(r)

    def resolved(self, r):
        k = r[0]
        if k == 'def':
            return AV(fns=frozenset([('def', r[1])]))
        if k == 'class':
            return AV(fns=frozenset([('class', r[1])]))
        if k == 'module':
            return AV(fns=frozenset([('mod', r[1])]))
        if k == 'ext':
            return AV(fns=frozenset([('ext', r[1])]))
        if k == 'value':
            m = r[2]
            e = r[1]
            if isinstance(e, (ast.Attribute, ast.Name)):
                d = dotted(e)
                if d and d.split('.')[0] != r[3]:
                    r2 = self.prog.resolve_in(m if hasattr(m, 'symbols') else m.module, d)
                    if r2[0] in ('ext', 'def', 'class', 'module'):
                        return self.resolved(r2)
            g = self.heap.get((('G', getattr(m, 'name', '')), r[3]), NOTHING)
            if e is None or isinstance(e, ast.Constant):
                return g
            return g | AV(frozenset([('P', 'module variable %s' % r[3])]))
        return NOTHING

    def eval(self, e, env, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    self.eval(ch, env, fr)
            return FRESH
        return m(e, env, fr)

    def e_Constant(self, e, env, fr):
        return NOTHING

    def e_Name(self, e, env, fr):
        return self.load_name(e.id, env, fr)

    def e_NamedExpr(self, e, env, fr):
        v = self.eval(e.value, env, fr)
        env[e.target.id] = v
        return v

    def e_Tuple(self, e, env, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            v = NOTHING
            for x in e.elts:
                v = v | (self.elements(self.eval(x.value, env, fr)) if isinstance(x, ast.Starred) else self.eval(x, env, fr))
            return self.container(e, fr, v)
        return self.container(e, fr, positional=[self.eval(x, env, fr) for x in e.elts])

    e_List = e_Tuple

    def e_Set(self, e, env, fr):
        v = NOTHING
        for x in e.elts:
            v = v | self.eval(x, env, fr)
        return self.container(e, fr, v)

    def e_Dict(self, e, env, fr):
        v = NOTHING
        for k, x in zip(e.keys, e.values):
            if k is not None:
                self.eval(k, env, fr)
                v = v | self.eval(x, env, fr)
            else:
                v = v | self.elements(self.eval(x, env, fr))
        return self.container(e, fr, v)

    def e_Lambda(self, e, env, fr):
        return self.closure(e, env, fr)

    def e_BinOp(self, e, env, fr):
        a, b = self.eval(e.left, env, fr), self.eval(e.right, env, fr)
        if not a.arr and not b.arr and isinstance(e.op, (ast.Add, ast.Mult)) and any(l[0] == 'A' for l in a.locs | b.locs):
            v = NOTHING
            for x in (a, b):
                for l in x.locs:
                    if l[0] == 'A':
                        v = v | self.heap.get((l, '*'), NOTHING)
                    elif isinstance(e.op, ast.Add):
                        v = v | self.elements(AV(frozenset([l])))
            shape = []
            for x in (a, b):
                n = {self.arity.get(l, -1) if l[0] == 'A' else -1 for l in x.locs}
                if len(n) != 1 or -1 in n or not isinstance(e.op, ast.Add):
                    shape = None
                    break
                for i in range(n.pop()):
                    y = NOTHING
                    for l in x.locs:
                        y = y | self.heap.get((l, '#%d' % i), NOTHING)
                    shape.append(y)
            if shape is not None:
                return self.container(e, fr, positional=shape)
            return self.container(e, fr, v)
        if not a.arr and not b.arr and isinstance(e.op, ast.Add) and (a.locs or b.locs):
            # lists of unknown origin: a new list with the same elements
            ls = [l for l in a.locs | b.locs if root(l) not in self.data and l[0] != 'O']
            if ls and all(l[0] != 'O' for l in a.locs | b.locs):
                return AV(arr=False)
        for l in a.locs:
            if l[0] == 'O' and l[2] is not None and isinstance(e.op, ast.Add):
                f = self.prog.method(l[2], '__add__')
                if f is not None:
                    return self.call(f, AV(frozenset([l])), [b], {}, e, fr)
        return AV(arr=a.arr or b.arr)

    def e_UnaryOp(self, e, env, fr):
        v = self.eval(e.operand, env, fr)
        return AV(arr=v.arr and not isinstance(e.op, ast.Not))

    def e_BoolOp(self, e, env, fr):
        v = NOTHING
        for x in e.values:
            v = v | self.eval(x, env, fr)
        return v

    def e_Compare(self, e, env, fr):
        v = self.eval(e.left, env, fr)
        arr = v.arr
        for x in e.comparators:
            arr = self.eval(x, env, fr).arr or arr
        return AV(arr=arr and not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops))

    def e_IfExp(self, e, env, fr):
        self.eval(e.test, env, fr)
        e1, e2 = dict(env), dict(env)
        self.narrow(e.test, e1, e2)
        return self.eval(e.body, e1, fr) | self.eval(e.orelse, e2, fr)

    def e_JoinedStr(self, e, env, fr):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                self.eval(x.value, env, fr)
        return NOTHING

    def e_Starred(self, e, env, fr):
        return self.eval(e.value, env, fr)

    def e_Yield(self, e, env, fr):
        if e.value is not None:
            fr.yields = fr.yields | self.eval(e.value, env, fr)
        return NOTHING

    def e_YieldFrom(self, e, env, fr):
        fr.yields = fr.yields | self.elements(self.eval(e.value, env, fr))
        return NOTHING

    def e_Await(self, e, env, fr):
        return self.eval(e.value, env, fr)

    def comp(self, e, env, fr, elt):
        env2 = dict(env)
        for g in e.generators:
            it = self.eval(g.iter, env2, fr)
            self.assign(g.target, self.elements(it), env2, fr, e)
            for c in g.ifs:
                self.eval(c, env2, fr)
        v = NOTHING
        for x in elt:
            v = v | self.eval(x, env2, fr)
        return self.container(e, fr, v)

    def e_ListComp(self, e, env, fr):
        return self.comp(e, env, fr, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env, fr):
        return self.comp(e, env, fr, [e.key, e.value])

    def e_Slice(self, e, env, fr):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.eval(x, env, fr)
        return NOTHING

    def e_Subscript(self, e, env, fr):
        b = self.eval(e.value, env, fr)
        return self.load_item(b, e.slice, e, env, fr)

    def load_item(self, b, sl, n, env, fr):
        i = self.eval(sl, env, fr)
        d = dotted(n.value) if isinstance(n, ast.Subscript) else None
        if d and d.rpartition('.')[2] in ('r_', 'c_', 'ix_', 'mgrid', 'ogrid', 's_'):
            return ARRAY
        parts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        basic = all(isinstance(x, ast.Slice) or isinstance(x, ast.Constant) or (isinstance(x, ast.UnaryOp) and isinstance(x.operand, ast.Constant))
                    for x in parts)
        vals = [self.eval(x, env, fr) for x in parts if not isinstance(x, ast.Slice)]
        fancy = any(v.arr for v in vals)
        r = NOTHING
        for l in b.locs:
            if l[0] == 'A':
                if isinstance(sl, ast.Slice):
                    r = r | self.container(n, fr, self.heap.get((l, '*'), NOTHING))
                elif isinstance(sl, ast.Constant) and isinstance(sl.value, int) and self.arity.get(l, -1) > sl.value >= 0:
                    r = r | self.heap.get((l, '#%d' % sl.value), NOTHING)
                else:
                    r = r | self.heap.get((l, '*'), NOTHING)
            elif l[0] == 'O' and l[2] is not None:
                m = self.prog.method(l[2], '__getitem__')
                if m is not None:
                    r = r | self.call(m, AV(frozenset([l])), [i], {}, n, fr)
                else:
                    r = r | self.hget(l, '*')
            elif b.arr or root(l) in self.data:
                if not fancy:
                    r = r | AV(frozenset([l]), True)
                else:
                    r = r | ARRAY
            else:
                if fancy:
                    r = r | ARRAY
                elif any(isinstance(x, ast.Slice) for x in parts):
                    r = r | AV(frozenset([l]))     # view of an array, or a copy of a list
                else:
                    r = r | self.hget(l, '*')
        if b.arr:
            r = r | ARRAY
        return r

    def e_Attribute(self, e, env, fr):
        b = self.eval(e.value, env, fr)
        self.sync(env, fr)
        k = self.field_key(e, b)
        if k in env:
            return env[k]
        return self.load_attr(b, e.attr, e, fr)

    def load_attr(self, b, name, n, fr):
        r = NOTHING
        for f in b.fns:
            if f[0] == 'mod':
                m = f[1]
                if isinstance(m, tuple):
                    r = r | self.resolved(self.prog.resolve_dotted(m[1] + '.' + name))
                else:
                    x = self.prog._module_attr(m, name, frozenset())
                    r = r | self.resolved(x)
            elif f[0] == 'ext':
                r = r | AV(fns=frozenset([('ext', canon_ext(f[1] + '.' + name))]))
            elif f[0] == 'class':
                x = self.prog.lookup(f[1], name)
                if x is not None and x[0] == 'def':
                    r = r | AV(fns=frozenset([('def', x[1])]))
                elif x is not None:
                    if not isinstance(x[1], ast.Constant):
                        r = r | AV(frozenset([('P', 'class variable %s.%s' % (x[2].name, name))]))
            elif f[0] == 'super':
                o = f[2]
                x = self.prog.lookup(o[2], name, after=f[1]) if o[2] is not None else None
                if x is not None and x[0] == 'def':
                    r = r | AV(fns=frozenset([('bound', x[1], o)]))
                elif x is not None and isinstance(x[1], ast.Name):
                    m = self.prog.method(o[2], name, after=f[1])
                    if m is not None:
                        r = r | AV(fns=frozenset([('bound', m, o)]))
        if name in SCALAR_ATTRS:
            return r
        for l in b.locs:
            if l[0] == 'O' and l[2] is not None:
                hv = self.heap.get((l, name))
                if hv is not None:
                    if self.track_fields and hv.arr and self.getter(l[2], name) is None:
                        hv = hv | AV(frozenset([('F', l, name)]), True)
                    r = r | hv
                g = self.getter(l[2], name)
                if g is not None:
                    r = r | self.call(g, AV(frozenset([l])), [], {}, n, fr)
                    continue
                x = self.prog.lookup(l[2], name)
                if x is not None and x[0] == 'def':
                    r = r | AV(fns=frozenset([('bound', x[1], l)]))
                elif x is not None and hv is None:
                    m = self.prog.method(l[2], name)
                    if m is not None:
                        r = r | AV(fns=frozenset([('bound', m, l)]))
                    elif not isinstance(x[1], (ast.Constant, ast.Call)):
                        r = r | AV(frozenset([('P', 'class variable %s.%s' % (x[2].name, name))]))
                elif x is None and hv is None and name == '__dict__':
                    pass
            elif l[0] == 'O':
                r = r | self.hget(l, name)
            elif b.arr or root(l) in self.data:
                if name in VIEW_ATTRS:
                    r = r | AV(frozenset([l]), True)
            elif l[0] == 'A':
                pass
            elif name in VIEW_ATTRS:
                r = r | AV(frozenset([l]))
            else:
                r = r | self.hget(l, name)
        if b.arr and name in VIEW_ATTRS:
            r = r | ARRAY
        return r

    # -------------------------------------------------------------------- calls
    def e_Call(self, e, env, fr):
        args, star = [], NOTHING
        for a in e.args:
            if isinstance(a, ast.Starred):
                star = star | self.eval(a.value, env, fr)
            else:
                args.append(self.eval(a, env, fr))
        kw, starkw = {}, NOTHING
        for k in e.keywords:
            if k.arg is None:
                starkw = starkw | self.eval(k.value, env, fr)
            else:
                kw[k.arg] = self.eval(k.value, env, fr)
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and 'super' not in env:
            return self.super_value(e, env, fr)
        if isinstance(f, ast.Attribute):
            b = self.eval(f.value, env, fr)
            fv = self.load_attr(b, f.attr, e, fr)
            return self.method_call(b, f.attr, fv, args, kw, star, starkw, e, env, fr)
        fv = self.eval(f, env, fr)
        return self.call_value(fv, args, kw, star, starkw, e, env, fr)

    def super_value(self, e, env, fr):
        fi = fr.fi
        while fi is not None and fi.cls is None:
            fi = fi.parent
        cls = fi.cls if fi else None
        selfv = None
        if e.args:
            c = self.eval(e.args[0], env, fr)
            for x in c.fns:
                if x[0] == 'class':
                    cls = x[1]
            if len(e.args) > 1:
                selfv = self.eval(e.args[1], env, fr)
        elif fi is not None and fi.params():
            selfv = self.load_name(fi.params()[0][0], env, fr)
        r = frozenset(('super', cls, l) for l in (selfv.locs if selfv else ()) if l[0] == 'O')
        return AV(fns=r)

    def method_call(self, b, name, fv, args, kw, star, starkw, e, env, fr):
        r = NOTHING
        called = False
        if fv.fns:
            r = r | self.call_value(AV(fns=fv.fns), args, kw, star, starkw, e, env, fr)
            called = True
        unknown = [l for l in b.locs if not (l[0] == 'O' and l[2] is not None)]
        allargs = NOTHING
        for a in list(args) + list(kw.values()):
            allargs = allargs | a
        if unknown or (b.arr and not called) or (not called and not b.fns):
            bu = AV(frozenset(unknown), b.arr)
            r = r | self.generic_method(bu, name, args, kw, star, starkw, e, env, fr, allargs)
        return r

    def generic_method(self, b, name, args, kw, star, starkw, e, env, fr, allargs):
        c = self.contracts.get(name)
        if c is not None:
            v = c(self, b, args, kw, e, fr)
            if v is not None:
                return v
        if 'out' in kw:
            self.mutate(kw['out'], 'out=', e, fr)
        isarr = b.arr or any(root(l) in self.data for l in b.locs)
        if name in ARRAY_MUT or (name == 'byteswap' and args):
            self.mutate(b, '.%s()' % name, e, fr, on=e.func.value if isinstance(e.func, ast.Attribute) else None)
            return NOTHING
        if name in CONT_MUT and not (b.arr and not any(l[0] == 'A' for l in b.locs)):
            # only a deque has the methods in the second set, a list given by the user would fail
            self.mutate(b if name not in ('rotate', 'appendleft', 'popleft', 'extendleft') else AV(frozenset(l for l in b.locs if l[0] == 'A')),
                        '.%s()' % name, e, fr, on=e.func.value if isinstance(e.func, ast.Attribute) else None)
            v = NOTHING
            if name in ('append', 'add', 'appendleft', 'setdefault', '__setitem__'):
                v = args[-1] if args else NOTHING
            elif name == 'insert' and len(args) > 1:
                v = args[1]
            elif name in ('extend', 'update', 'extendleft'):
                for a in args:
                    v = v | self.elements(a)
                for a in kw.values():
                    v = v | a
                if starkw is not NOTHING:
                    v = v | self.elements(starkw)
            for l in b.locs:
                self.hadd(l, '*', v)
                if self.arity.get(l, -1) >= 0:
                    self.arity[l] = -1
                if l in self.names and name in ('update', 'setdefault', '__setitem__'):
                    self.names[l] = None
            if name in ('pop', 'popleft', 'popitem', 'setdefault'):
                r = NOTHING
                for l in b.locs:
                    r = r | self.hget(l, '*')
                return r
            return NOTHING
        if name in ('items', 'keys', 'values', 'iteritems', 'itervalues', 'iterkeys'):
            v = self.elements(b)
            t = self.container(e, fr, v)
            if 'items' in name:
                # pairs (key, value)
                pair = self.container(e.func, fr, v)
                return self.container(e, fr, pair)
            return t
        if name == 'copy':
            if isarr:
                return ARRAY
            if not b.locs:
                return AV(arr=b.arr)
            conts = [l for l in b.locs if l[0] == 'A']
            if conts:
                v = NOTHING
                for l in conts:
                    v = v | self.heap.get((l, '*'), NOTHING)
                return self.container(e, fr, v)
            return AV(frozenset())
        if name == 'astype':
            return ARRAY
        if name in VIEW_METHODS:
            if isarr:
                return AV(b.locs, True)
            r = NOTHING
            for l in b.locs:
                if name in ('get', 'setdefault', '__getitem__'):
                    r = r | self.hget(l, '*')
                elif l[0] != 'A':
                    r = r | AV(frozenset([l]))
            for a in args[1:]:
                r = r | a
            return r
        if name in ('index', 'count', 'startswith', 'endswith', 'find', 'item', 'any', 'all'):
            return NOTHING
        return AV(arr=isarr or allargs.arr)

    def call_value(self, fv, args, kw, star, starkw, e, env, fr):
        r = NOTHING
        for f in sorted(fv.fns, key=repr):
            k = f[0]
            if k == 'def':
                fi = f[1]
                if fi.cls is not None and not fi.is_static and not fi.is_classmethod:
                    # Class.method(self, ...)
                    a = list(args)
                    s = a.pop(0) if a else NOTHING
                    r = r | self.call(fi, s, a, kw, e, fr, None, star, starkw)
                elif fi.cls is not None and fi.is_classmethod:
                    r = r | self.call(fi, AV(fns=frozenset([('class', fi.cls)])), args, kw, e, fr, None, star, starkw)
                else:
                    r = r | self.call(fi, None, args, kw, e, fr, None, star, starkw)
            elif k == 'bound':
                fi, l = f[1], f[2]
                s = AV(fns=frozenset([('class', l[2])])) if fi.is_classmethod else AV(frozenset([l]))
                if fi.name in self.contracts and l[2] is None:
                    continue
                r = r | self.call(fi, None if fi.is_static else s, args, kw, e, fr, None, star, starkw)
            elif k == 'fn':
                fi, clo = self.closures[f[1]]
                r = r | self.call(fi, None, args, kw, e, fr, clo, star, starkw)
            elif k == 'class':
                r = r | self.construct(f[1], args, kw, star, starkw, e, fr)
            elif k == 'ext':
                r = r | self.ext_call(f[1], args, kw, star, starkw, e, fr)
            elif k == 'mod':
                pass
        return r

    def construct(self, ci, args, kw, star, starkw, e, fr):
        key = '%s@%d' % (ci.name, getattr(e, 'lineno', 0))
        l = ('O', key, ci)
        v = AV(frozenset([l]))
        init = self.prog.method(ci, '__init__')
        if init is not None:
            self.call(init, v, args, kw, e, fr, None, star, starkw)
        elif not self.prog.mro(ci)[-1:] or True:
            for a in args:
                self.hadd(l, '*', self.elements(a))
        return v

    def ext_call(self, path, args, kw, star, starkw, e, fr):
        places = self.extcalls.setdefault(path, [])
        if (fr.fi, e) not in places:
            places.append((fr.fi, e))
        nm = path
        short = nm.partition('.')[2] if '.' in nm else nm
        last = nm.rpartition('.')[2]
        isnp = nm.startswith('numpy.') or nm.startswith('scipy.')
        al = NOTHING
        for a in list(args) + list(kw.values()):
            al = al | a
        if star is not NOTHING:
            al = al | self.elements(star)
        if isnp:
            if 'out' in kw:
                self.mutate(kw['out'], 'out=', e, fr)
                for l in kw['out'].locs:
                    if l[0] == 'A':
                        self.mutate(self.heap.get((l, '*'), NOTHING), 'out=', e, fr)
            if short in FUNC_MUT or short.replace('linalg.', '') in FUNC_MUT:
                if args:
                    self.mutate(args[0], '%s()' % last, e, fr)
                return NOTHING
            if last in BINARY_UFUNC and len(args) >= 3:
                self.mutate(args[2], 'out argument of %s' % last, e, fr)
                return AV(args[2].locs, True)
            if last in UNARY_UFUNC and len(args) >= 2:
                self.mutate(args[1], 'out argument of %s' % last, e, fr)
                return AV(args[1].locs, True)
            if last == 'clip' and len(args) >= 4:
                self.mutate(args[3], 'out argument of clip', e, fr)
                return AV(args[3].locs, True)
            for i, k in enumerate(('overwrite_a', 'overwrite_b')):
                for x in e.keywords:
                    if x.arg == k and not (isinstance(x.value, ast.Constant) and not x.value.value) and len(args) > i:
                        self.mutate(args[i], k, e, fr)
            for x in e.keywords:
                if x.arg in ('overwrite_x', 'copy') and args:
                    on = not (isinstance(x.value, ast.Constant) and not x.value.value)
                    if x.arg == 'overwrite_x' and on or x.arg == 'copy' and not on and last == 'nan_to_num':
                        self.mutate(args[0], x.arg, e, fr)
                    if x.arg == 'copy' and isinstance(x.value, ast.Constant) and x.value.value is False and args:
                        return AV(args[0].locs, True)
            if 'out' in kw:
                return AV(kw['out'].locs, True)
            if last in VIEW_FUNCS and args:
                return AV(frozenset(l for l in args[0].locs if l[0] not in ('A', 'O')), True)
            if last in ('append',):
                return ARRAY
            return ARRAY
        if last in ('copy',) and nm.startswith('copy'):
            return self.container(e, fr, self.elements(args[0])) if args and any(l[0] in ('A', 'P', 'E', 'F') for l in args[0].locs) and not args[0].arr else AV(arr=bool(args and args[0].arr))
        if last in ('deepcopy', 'loads', 'dumps', 'load', 'dump'):
            return AV(arr=al.arr)
        if last == 'setattr' and len(args) == 3:
            k = e.args[1]
            nmx = k.value if isinstance(k, ast.Constant) and isinstance(k.value, str) else '?'
            self.store_attr(args[0], nmx, args[2], e, fr)
            return NOTHING
        if last == 'delattr' and args:
            for l in args[0].locs:
                self.note('store', l, '?', NOTHING, fr.fi, e)
            return NOTHING
        if last == 'getattr' and len(args) >= 2:
            k = e.args[1]
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                return self.load_attr(args[0], k.value, e, fr) | (args[2] if len(args) > 2 else NOTHING)
            return AV(args[0].locs if not any(l[0] == 'O' for l in args[0].locs) else EMPTY)
        if last == 'next' and args:
            return self.elements(args[0])
        if last in ('zip', 'izip'):
            pos = [self.elements(a) for a in args]
            return self.container(e, fr, self.container(e.func, fr, positional=pos))
        if last == 'enumerate' and args:
            return self.container(e, fr, self.container(e.func, fr, positional=[NOTHING, self.elements(args[0])]))
        if last in ('map', 'filter') and args:
            els = [self.elements(a) for a in args[1:]]
            v = self.call_value(args[0], els, {}, NOTHING, NOTHING, e, {}, fr) if last == 'map' else (els[0] if els else NOTHING)
            if last == 'filter' and args[0].fns:
                self.call_value(args[0], els, {}, NOTHING, NOTHING, e, {}, fr)
            return self.container(e, fr, v)
        if last == 'reduce' and len(args) >= 2:
            x = self.elements(args[1]) | (args[2] if len(args) > 2 else NOTHING)
            return x | self.call_value(args[0], [x, x], {}, NOTHING, NOTHING, e, {}, fr)
        if last in ('max', 'min', 'sum') and args:
            if len(args) == 1:
                return self.elements(args[0]) if not args[0].arr else ARRAY
            return al
        if last in SCALAR_BUILTINS:
            return NOTHING
        if last in COPY_BUILTINS or last in ('deque', 'OrderedDict', 'defaultdict'):
            v = NOTHING
            for a in args:
                v = v | self.elements(a)
            for a in kw.values():
                v = v | a
            if args and args[0].arr and not any(l[0] == 'A' for l in args[0].locs):
                v = AV(args[0].locs, True)
            return self.container(e, fr, v)
        if last == 'partial' and args:
            return AV(fns=args[0].fns)
        # callbacks handed to unknown functions are called
        for a in list(args) + list(kw.values()):
            if any(f[0] in ('fn', 'bound', 'def') for f in a.fns):
                self.call_value(AV(fns=frozenset(f for f in a.fns if f[0] in ('fn', 'bound', 'def'))), [AV(arr=True)], {}, NOTHING, NOTHING, e, {}, fr)
        return AV(arr=al.arr)
