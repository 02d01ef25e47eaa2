"""Scopes and definite assignment of local variables.

`Scopes` resolves every loaded name of a module; `unbound_uses` finds loads of a local variable on a path on which nothing was assigned to it.
Branch conditions over unchanged operands are correlated; a loop body is assumed to run at least once.
"""
import ast
import builtins

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__builtins__', '__package__', '__spec__', '__class__', '__module__', '__qualname__', '__debug__'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def bound_here(fn):
    """-> (locals, globals, nonlocals) of a function"""
    out, glob, nonl = set(), set(), set()
    a = fn.args
    for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
        out.add(p.arg)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for st in body:
        _bound(st, out, glob, nonl)
    return out - glob - nonl, glob, nonl


def _bound(n, out, glob, nonl):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        out.add(n.name)
        return
    if isinstance(n, ast.Lambda):
        return
    if isinstance(n, COMPS):
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                out.add(x.target.id)
        return
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
        out.add(n.id)
    elif isinstance(n, (ast.Import, ast.ImportFrom)):
        for x in n.names:
            out.add((x.asname or x.name).split('.')[0])
    elif isinstance(n, ast.ExceptHandler) and n.name:
        out.add(n.name)
    elif isinstance(n, ast.Global):
        glob.update(n.names)
    elif isinstance(n, ast.Nonlocal):
        nonl.update(n.names)
    elif type(n).__name__ in ('MatchAs', 'MatchStar') and n.name:
        out.add(n.name)
    for c in ast.iter_child_nodes(n):
        _bound(c, out, glob, nonl)


def comp_targets(n):
    return {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}


class Scopes(object):
    """yields (name node, kind) for every loaded name of a module: kind in local, free, module, builtin, unknown"""
    def __init__(self, module, module_names, open_module):
        self.module, self.module_names, self.open_module = module, module_names, open_module
        self.out = []

    def run(self):
        for st in self.module.tree.body:
            self.visit(st, [])
        return self.out

    def resolve(self, n, scopes):
        nm = n.id
        for k, (kind, names, fn) in enumerate(reversed(scopes)):
            if kind == 'class' and k != 0:
                continue
            if nm in names:
                self.out.append((n, 'local' if kind != 'class' and k == 0 else 'free'))
                return
        if nm in self.module_names:
            self.out.append((n, 'module'))
        elif nm in BUILTINS:
            self.out.append((n, 'builtin'))
        elif self.open_module:
            self.out.append((n, 'open'))
        else:
            self.out.append((n, 'unknown'))

    def visit(self, n, scopes):
        if isinstance(n, FUNCS):
            for d in getattr(n, 'decorator_list', []):
                self.visit(d, scopes)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, scopes)
            loc, glob, nonl = bound_here(n)
            inner = [s for s in scopes]
            new = inner + [('func', loc, n)]
            for st in (n.body if isinstance(n.body, list) else [n.body]):
                self.visit(st, new)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, scopes)
            names, g, nl = set(), set(), set()
            for st in n.body:
                _bound(st, names, g, nl)
            for st in n.body:
                self.visit(st, scopes + [('class', names, n)])
            return
        if isinstance(n, COMPS):
            self.visit(n.generators[0].iter, scopes)
            new = scopes + [('func', comp_targets(n), n)]
            for i, g in enumerate(n.generators):
                if i:
                    self.visit(g.iter, new)
                for c in g.ifs:
                    self.visit(c, new)
            for f in ('elt', 'key', 'value'):
                if hasattr(n, f):
                    self.visit(getattr(n, f), new)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.resolve(n, scopes)
            return
        if isinstance(n, (ast.AnnAssign, ast.arg)):
            pass
        for c in ast.iter_child_nodes(n):
            self.visit(c, scopes)


# --------------------------------------------------------------------------- definite assignment
class Path(object):
    __slots__ = ('bound', 'facts')

    def __init__(self, bound, facts):
        self.bound, self.facts = bound, facts

    def key(self):
        return self.bound, self.facts


LIMIT = 400


class Assigned(object):
    """definite assignment in one function; `reports` are Name nodes"""
    def __init__(self, fn, tracked, never_returns):
        self.fn, self.tracked, self.never_returns = fn, tracked, never_returns
        self.reports, self.paths, self.uses = [], 0, 0
        self.seen = set()

    def run(self):
        a = self.fn.args
        params = frozenset(p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x])
        self.block(self.fn.body, [Path(params, frozenset())])
        return self.reports

    # control: returns dict kind -> states
    def join(self, states):
        seen, out = set(), []
        for s in states:
            if s.key() not in seen:
                seen.add(s.key())
                out.append(s)
        if len(out) > LIMIT:
            self.paths += 1
            groups = {}
            for s in out:
                groups.setdefault(s.bound, []).append(s)
            out = [Path(b, frozenset.intersection(*[s.facts for s in g])) for b, g in groups.items()]
            if len(out) > LIMIT:
                out = [Path(frozenset.union(*[s.bound for s in out]), frozenset())]
        return out

    def block(self, body, states):
        """-> {'next','break','continue','return','raise'} -> states"""
        out = {'next': states, 'break': [], 'continue': [], 'return': [], 'raise': []}
        for st in body:
            if not out['next']:
                break
            r = self.stmt(st, out['next'])
            out['next'] = self.join(r.pop('next'))
            for k, v in r.items():
                out[k] = out[k] + v
        return out

    def load(self, e, states):
        """check the loads of an expression, bind walrus targets, -> states"""
        if e is None:
            return states
        if isinstance(e, ast.BoolOp):
            # later operands are evaluated only when the earlier ones did not decide
            cur = states
            for v in e.values:
                cur = self.load(v, cur)
                cur = self.assume(v, cur, isinstance(e.op, ast.And))
            return self.walrus(e, states)
        if isinstance(e, ast.IfExp):
            states = self.load(e.test, states)
            self.load(e.body, self.assume(e.test, states, True))
            self.load(e.orelse, self.assume(e.test, states, False))
            return self.walrus(e, states)
        inner = [x for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)] if any(isinstance(x, (ast.BoolOp, ast.IfExp)) for x in ast.walk(e)) \
            and not isinstance(e, COMPS + (ast.Lambda,)) else None
        if inner is not None:
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.keyword):
                    x = x.value
                if isinstance(x, ast.expr):
                    states = self.load(x, states)
            return states
        for n in self.loads(e):
            for s in states:
                if n.id in self.tracked:
                    self.uses += 1
                    if n.id not in s.bound and (n.lineno, n.col_offset) not in self.seen:
                        self.seen.add((n.lineno, n.col_offset))
                        self.reports.append((n, s.facts))
        return self.walrus(e, states)

    def walrus(self, e, states):
        w = [x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)]
        for nm in w:
            states = self.bind([nm], states)
        return states

    def loads(self, e):
        stack = [(e, frozenset())]
        while stack:
            n, hidden = stack.pop()
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, COMPS):
                hid = hidden | comp_targets(n)
                stack.append((n.generators[0].iter, hidden))
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, ast.comprehension):
                        for x in c.ifs:
                            stack.append((x, hid))
                        if c is not n.generators[0]:
                            stack.append((c.iter, hid))
                    else:
                        stack.append((c, hid))
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in hidden:
                yield n
            for c in ast.iter_child_nodes(n):
                stack.append((c, hidden))

    def bind(self, names, states):
        names = frozenset(names)
        return [Path(s.bound | names, self.kill(s.facts, names)) for s in states]

    def kill(self, facts, names):
        return frozenset(f for f in facts if not (f[2] & names))

    def store(self, t, states):
        """assignment target: loads inside, bound names, killed facts"""
        for x in ast.walk(t):
            if isinstance(x, (ast.Attribute, ast.Subscript)):
                states = self.load(x.value, states)
                if isinstance(x, ast.Subscript):
                    states = self.load(x.slice, states)
        names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        attrs = {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        states = self.bind(names, states)
        if attrs:
            tags = frozenset('.' + a for a in attrs)
            states = [Path(s.bound, self.kill(s.facts, tags)) for s in states]
        return states

    def stmt(self, st, states):
        out = {'next': states}
        T = type(st)
        if T in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
            for d in st.decorator_list:
                states = self.load(d, states)
            out['next'] = self.bind([st.name], states)
        elif T in (ast.Import, ast.ImportFrom):
            out['next'] = self.bind([(x.asname or x.name).split('.')[0] for x in st.names], states)
        elif T is ast.Assign:
            states = self.load(st.value, states)
            for t in st.targets:
                states = self.store(t, states)
            if len(st.targets) == 1 and isinstance(st.targets[0], (ast.Name, ast.Attribute)) and isinstance(st.value, ast.Constant):
                states = self.fact_of_assignment(st.targets[0], st.value, states)
            out['next'] = states
        elif T is ast.AnnAssign:
            if st.value is not None:
                out['next'] = self.store(st.target, self.load(st.value, states))
        elif T is ast.AugAssign:
            states = self.load(st.value, states)
            if isinstance(st.target, ast.Name):
                states = self.load(ast.copy_location(ast.Name(st.target.id, ast.Load()), st.target), states)
            out['next'] = self.store(st.target, states)
        elif T in (ast.Return,):
            self.load(st.value, states)
            out = {'next': [], 'return': states}
        elif T is ast.Raise:
            self.load(st.exc, states)
            self.load(st.cause, states)
            out = {'next': [], 'raise': states}
        elif T is ast.Assert:
            states = self.load(st.test, states)
            self.load(st.msg, self.assume(st.test, states, False))
            out['next'] = self.assume(st.test, states, True)
        elif T is ast.Delete:
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.load(ast.copy_location(ast.Name(t.id, ast.Load()), t), states)
                    states = [Path(s.bound - {t.id}, s.facts) for s in states]
                else:
                    states = self.load(t, states)
            out['next'] = states
        elif T is ast.Expr:
            states = self.load(st.value, states)
            if isinstance(st.value, ast.Call) and self.never_returns(st.value):
                out = {'next': [], 'raise': states}
            else:
                out['next'] = states
        elif T is ast.If:
            states = self.load(st.test, states)
            a = self.block(st.body, self.assume(st.test, states, True))
            b = self.block(st.orelse, self.assume(st.test, states, False))
            out = {k: a[k] + b[k] for k in a}
        elif T in (ast.For, ast.AsyncFor):
            states = self.load(st.iter, states)
            once = self.block(st.body, self.forget_loop(st, self.store(st.target, states)))
            ends = self.join(once['next'] + once['continue'])
            e = self.block(st.orelse, ends)
            out = {'next': e['next'] + once['break'], 'return': once['return'] + e['return'], 'raise': once['raise'] + e['raise'],
                   'break': e['break'], 'continue': e['continue']}
        elif T is ast.While:
            states = self.load(st.test, self.forget_loop(st, states))
            once = self.block(st.body, self.assume(st.test, states, True))
            forever = isinstance(st.test, ast.Constant) and st.test.value
            if forever:
                out = {'next': once['break'], 'return': once['return'], 'raise': once['raise']}
                # a later iteration may leave with what the first one bound
                if not once['break'] and (once['next'] or once['continue']) and any(isinstance(x, ast.Break) for x in ast.walk(st)):
                    out['next'] = once['next'] + once['continue']
            else:
                ends = self.assume(st.test, self.join(once['next'] + once['continue']), False)
                e = self.block(st.orelse, ends)
                out = {'next': e['next'] + once['break'], 'return': once['return'] + e['return'], 'raise': once['raise'] + e['raise'],
                       'break': e['break'], 'continue': e['continue']}
        elif T in (ast.With, ast.AsyncWith):
            for i in st.items:
                states = self.load(i.context_expr, states)
                if i.optional_vars is not None:
                    states = self.store(i.optional_vars, states)
            out = self.block(st.body, states)
        elif T is ast.Try or T.__name__ == 'TryStar':
            out = self.try_(st, states)
        elif T is ast.Break:
            out = {'next': [], 'break': states}
        elif T is ast.Continue:
            out = {'next': [], 'continue': states}
        elif T.__name__ == 'Match':
            states = self.load(st.subject, states)
            acc = {'next': list(states), 'break': [], 'continue': [], 'return': [], 'raise': []}
            for c in st.cases:
                names = {x.name for x in ast.walk(c.pattern) if getattr(x, 'name', None)}
                r = self.block(c.body, self.bind(names, states))
                for k in r:
                    acc[k] = acc[k] + r[k]
            out = acc
        elif T in (ast.Pass, ast.Global, ast.Nonlocal):
            pass
        for k in ('break', 'continue', 'return', 'raise'):
            out.setdefault(k, [])
        return out

    def try_(self, st, states):
        # states in which an exception may leave the body
        raising = []
        cur = {'next': states, 'break': [], 'continue': [], 'return': [], 'raise': []}
        for s in st.body:
            if not cur['next']:
                break
            if may_raise(s):
                raising += cur['next']
            r = self.stmt(s, cur['next'])
            cur['next'] = self.join(r.pop('next'))
            for k, v in r.items():
                cur[k] = cur[k] + v
            raising += r.get('raise', [])
        normal = self.block(st.orelse, cur['next'])
        outs = {k: normal[k] + (cur[k] if k != 'next' else []) for k in normal}
        raising = self.join(raising)
        caught_all = any(h.type is None or isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException') for h in st.handlers)
        outs['raise'] = [] if caught_all else list(raising)
        if not raising and st.handlers:
            raising = self.join(states)
        for h in st.handlers:
            self.load(h.type, raising)
            hs = self.bind([h.name], raising) if h.name else raising
            r = self.block(h.body, hs)
            for k in r:
                outs[k] = outs[k] + r[k]
        if st.finalbody:
            res = {}
            for k in outs:
                if not outs[k]:
                    res[k] = []
                    continue
                r = self.block(st.finalbody, self.join(outs[k]))
                for kk in r:
                    tgt = k if kk == 'next' else kk
                    res[tgt] = res.get(tgt, []) + r[kk]
            outs = {k: res.get(k, []) for k in ('next', 'break', 'continue', 'return', 'raise')}
        return outs

    def forget_loop(self, st, states):
        """facts about what the loop changes do not hold in later iterations"""
        names = {x.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        attrs = {'.' + x.attr for b in st.body for x in ast.walk(b) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        k = frozenset(names | attrs)
        return [Path(s.bound, self.kill(s.facts, k)) for s in states]

    # ------------------------------------------------------------ conditions
    def fact_of_assignment(self, t, v, states):
        if v.value is None:
            text, val = ast.unparse(t) + ' is None', True
        elif isinstance(v.value, bool):
            text, val = ast.unparse(t), v.value
        else:
            text, val = '%s == %s' % (ast.unparse(t), ast.unparse(v)), True
        ops = operands(t)
        extra = [(text, val, ops)]
        if v.value is None:
            extra.append((ast.unparse(t), False, ops))
        elif not isinstance(v.value, bool):
            extra.append((ast.unparse(t), bool(v.value), ops))
            extra.append((ast.unparse(t) + ' is None', False, ops))
        else:
            extra.append((ast.unparse(t) + ' is None', False, ops))
        return [Path(s.bound, s.facts | frozenset(extra)) for s in states]

    def assume(self, test, states, truth):
        if isinstance(test, ast.Constant):
            return states if bool(test.value) == truth else []
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, states, not truth)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == truth:
                for v in test.values:
                    states = self.assume(v, states, truth)
                return states
            out = []
            rest = states
            for v in test.values:
                out += self.assume(v, rest, truth)
                rest = self.assume(v, rest, not truth)
            return self.join(out)
        if not pure(test):
            return states
        text, val = normal(test)
        val = val == truth
        ops = operands(test)
        out = []
        for s in states:
            if contradicts(s.facts, text, val):
                continue
            out.append(Path(s.bound, s.facts | frozenset(implied(test, text, val, ops))))
        return out


def implied(test, text, val, ops):
    yield text, val, ops
    if val and isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], ast.Eq) and isinstance(test.comparators[0], ast.Constant) \
            and test.comparators[0].value is not None:
        yield ast.unparse(test.left) + ' is None', False, ops
    if val and isinstance(test, (ast.Name, ast.Attribute)):
        yield text + ' is None', False, ops
    if text.endswith(' is None') and val:
        yield text[:-8], False, ops


def contradicts(facts, text, val):
    for t, v, _ in facts:
        if t == text and v != val:
            return True
        if val and v and ' == ' in t and ' == ' in text:
            l1, r1 = t.split(' == ', 1)
            l2, r2 = text.split(' == ', 1)
            if l1 == l2 and r1 != r2 and is_lit(r1) and is_lit(r2):
                return True
    return False


def is_lit(s):
    try:
        ast.literal_eval(s)
        return True
    except (ValueError, SyntaxError):
        return False


NEG = {ast.NotEq: '==', ast.IsNot: 'is', ast.NotIn: 'in', ast.GtE: '<', ast.LtE: '>'}
POS = {ast.Eq: '==', ast.Is: 'is', ast.In: 'in', ast.Lt: '<', ast.Gt: '>'}


def normal(test):
    """-> (canonical text, polarity)"""
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op = type(test.ops[0])
        l, r = ast.unparse(test.left), ast.unparse(test.comparators[0])
        if op in POS:
            return '%s %s %s' % (l, POS[op], r), True
        return '%s %s %s' % (l, NEG[op], r), False
    return ast.unparse(test), True


PURE_CALLS = {'isinstance', 'len', 'type', 'hasattr', 'callable', 'str', 'int'}


def pure(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in PURE_CALLS:
                continue
            if isinstance(f, ast.Attribute) and (f.attr.startswith(('is_', 'get_', 'has_')) or f.attr in ('startswith', 'endswith')):
                continue
            return False
        if isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Lambda) + COMPS):
            return False
    return True


def operands(e):
    return frozenset({n.id for n in ast.walk(e) if isinstance(n, ast.Name)} | {'.' + n.attr for n in ast.walk(e) if isinstance(n, ast.Attribute)})


SAFE = (ast.Constant, ast.Name, ast.Load, ast.Store, ast.List, ast.Tuple, ast.Dict, ast.Assign, ast.Pass, ast.expr_context, ast.Global, ast.FunctionDef)


def may_raise(st):
    if isinstance(st, (ast.FunctionDef, ast.Pass, ast.Global)):
        return False
    return any(not isinstance(n, SAFE) for n in ast.walk(st))
