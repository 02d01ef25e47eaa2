"""Behaviour-preserving rewrites of the whole library, to find out which checks depend on how the code is written.

usage: refactor.py KIND REPO [relative file ...]      rewrites the library files of REPO in place (use a copy)
"""
import ast
import os
import sys

SKIP = ('/test/', 'conftest.py', 'setup.py')


def bad(f):
    """functions that look at their own frame or names"""
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and n.id in ('locals', 'exec', 'eval', 'vars', 'globals', 'dir'):
            return True
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            return True
    return False


def isgen(f):
    st = list(f.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st += list(ast.iter_child_nodes(n))
    return False


def own(f):
    """nodes of the function without nested functions and classes"""
    st = list(f.body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st += list(ast.iter_child_nodes(n))


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.count = 0
        self.cls = []

    def new(self, p='v'):
        self.n += 1
        return '%s_%d_' % (p, self.n)

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        self.generic_visit(n)
        self.cls.pop()
        return n

    def visit_FunctionDef(self, n):
        if bad(n):
            return n
        self.generic_visit(n)
        return n

    def body(self, n):
        """statement lists inside functions"""


class Blocks(Base):
    """rewrites statements inside functions: stmt(s) -> list"""
    infn = 0

    def visit_FunctionDef(self, n):
        if bad(n):
            return n
        self.infn += 1
        self.fn = getattr(self, 'fn', []) + [n]
        self.generic_visit(n)
        self.lists(n)
        self.fn = self.fn[:-1]
        self.infn -= 1
        return n

    def lists(self, f):
        def walk(n):
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(n, fld, None)
                if isinstance(b, list):
                    out = []
                    for s in b:
                        if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                            walk(s)
                            if fld == 'orelse' and isinstance(n, ast.If) and len(b) == 1 and isinstance(s, ast.If) and not self.elif_ok:
                                out.append(s)
                                continue
                            out += self.stmt(s)
                        else:
                            out.append(s)
                    setattr(n, fld, out)
            for h in getattr(n, 'handlers', []) or []:
                walk(h)
        walk(f)
    elif_ok = True

    def stmt(self, s):
        return [s]


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


def asg(x, v):
    return ast.Assign([name(x, ast.Store())], v)


class Ret(Blocks):
    """return values through a local"""
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            v = self.new('result')
            self.count += 1
            return [asg(v, s.value), ast.Return(name(v))]
        return [s]


class Cond(Blocks):
    """conditions through a local"""
    def stmt(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
            v = self.new('cond')
            self.count += 1
            t, s.test = s.test, name(v)
            return [asg(v, t), s]
        return [s]


class Invert(Blocks):
    """exchange the branches of conditions"""
    def stmt(self, s):
        if isinstance(s, ast.If):
            self.count += 1
            if isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not):
                t = s.test.operand
            else:
                t = ast.UnaryOp(ast.Not(), s.test)
            return [ast.If(t, s.orelse or [ast.Pass()], s.body)]
        return [s]


class Compare(Base):
    """exchange the sides of comparisons, not x == y as x != y"""
    infn = 0

    def visit_FunctionDef(self, n):
        if bad(n):
            return n
        self.infn += 1
        self.generic_visit(n)
        self.infn -= 1
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if not self.infn or len(n.ops) != 1:
            return n
        swap = {ast.Is: ast.Is, ast.IsNot: ast.IsNot, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        scal = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        k = type(n.ops[0])
        simple = all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute)) for x in (n.left, n.comparators[0]))
        if k in swap and simple or k in scal and simple:
            self.count += 1
            return ast.Compare(n.comparators[0], [{**swap, **scal}[k]()], [n.left])
        return n

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Compare) and len(n.operand.ops) == 1 and self.infn:
            k = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(type(n.operand.ops[0]))
            if k:
                self.count += 1
                return ast.Compare(n.operand.left, [k()], n.operand.comparators)
        self.generic_visit(n)
        return n


class Rename(Base):
    """rename the local variables"""
    def visit_FunctionDef(self, f):
        if bad(f):
            return f
        params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
        for a in (f.args.vararg, f.args.kwarg):
            if a:
                params.add(a.arg)
        nested = [n for n in own(f) if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
        inner = {x.id for n in nested for x in ast.walk(n) if isinstance(x, ast.Name)} | {n.name for n in nested if not isinstance(n, ast.Lambda)}
        loc = {n.id for n in own(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        comp = {x.id for n in own(f) if isinstance(n, ast.comprehension) for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        imp = {(a.asname or a.name).split('.')[0] for n in own(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        loc -= params | inner | imp
        exc = {n.name for n in own(f) if isinstance(n, ast.ExceptHandler) and n.name}
        loc -= exc
        m = {x: x + '_loc' for x in loc}
        for n in own(f):
            if isinstance(n, ast.Name) and n.id in m:
                n.id = m[n.id]
                self.count += 1
        self.generic_visit(f)
        return f


class Loop(Blocks):
    """for loops over an explicit iterator"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            v = self.new('it')
            self.count += 1
            nx = ast.Try([ast.Assign([s.target], ast.Call(name('next'), [name(v)], []))], [ast.ExceptHandler(name('StopIteration'), None, [ast.Break()])], [], [])
            return [asg(v, ast.Call(name('iter'), [s.iter], [])), ast.While(ast.Constant(True), [nx] + s.body, [])]
        return [s]


class LoopVar(Blocks):
    """the iterable of a loop through a local"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
            v = self.new('seq')
            self.count += 1
            i, s.iter = s.iter, name(v)
            return [asg(v, i), s]
        return [s]


class Args(Blocks):
    """arguments of calls through locals (calls that are a statement, an assignment or a return)"""
    def stmt(self, s):
        c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
        if not isinstance(c, ast.Call) or isinstance(c.func, ast.Name) and c.func.id == 'super' or not isinstance(c.func, (ast.Name, ast.Attribute)):
            return [s]
        if isinstance(c.func, ast.Attribute) and not isinstance(c.func.value, (ast.Name, ast.Attribute)):
            return [s]
        if isinstance(s, ast.Expr) and isinstance(c.func, ast.Name) and c.func.id == 'print':
            return [s]
        pre = []
        for i, a in enumerate(c.args):
            if isinstance(a, (ast.Starred, ast.Name, ast.Constant, ast.Lambda)):
                continue
            v = self.new('arg')
            pre.append(asg(v, a))
            c.args[i] = name(v)
            self.count += 1
        return pre + [s]


class CompLoop(Blocks):
    """list comprehensions as loops"""
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
            g = s.value.generators[0]
            f = self.fn[-1]
            tn = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            used = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and x not in list(ast.walk(s.value))} | {a.arg for a in f.args.args}
            if tn & used:
                return [s]
            v = self.new('items')
            self.count += 1
            b = [ast.Expr(ast.Call(ast.Attribute(name(v), 'append', ast.Load()), [s.value.elt], []))]
            for c in reversed(g.ifs):
                b = [ast.If(c, b, [])]
            s.value = name(v)
            return [asg(v, ast.List([], ast.Load())), ast.For(g.target, g.iter, b, []), s]
        return [s]


class Nop(Blocks):
    """statements without effect"""
    def visit_FunctionDef(self, n):
        super(Nop, self).visit_FunctionDef(n)
        if not bad(n):
            i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
            n.body.insert(i, asg(self.new('unused'), ast.Constant(None)))
            self.count += 1
        return n


class NestAnd(Blocks):
    """a and b as nested conditions"""
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            self.count += 1
            b = s.body
            for v in reversed(s.test.values):
                b = [ast.If(v, b, [])]
            return b
        return [s]


class Early(Blocks):
    """else after a branch that leaves"""
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            self.count += 1
            o, s.orelse = s.orelse, []
            return [s] + o
        return [s]


class TernaryIf(Blocks):
    """conditional expressions as statements"""
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            import copy
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = s.value.body, s.value.orelse
            self.count += 1
            return [ast.If(s.value.test, [a], [b])]
        return [s]


class Msg(Blocks):
    """exceptions through a local"""
    def stmt(self, s):
        if isinstance(s, ast.Raise) and isinstance(s.exc, ast.Call) and s.cause is None:
            v = self.new('error')
            self.count += 1
            e, s.exc = s.exc, name(v)
            return [asg(v, e), s]
        return [s]


class Helper(Base):
    """bodies of methods in a helper method"""
    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        out = []
        for s in n.body:
            out.append(s)
            if isinstance(s, ast.ClassDef):
                self.visit_ClassDef(s)
            if not isinstance(s, ast.FunctionDef) or bad(s) or isgen(s) or s.decorator_list or s.args.kwonlyargs or (s.name.startswith('__') and s.name != '__init__') or not s.args.args:
                continue
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' and not x.args for x in ast.walk(s)) or any(k in ast.unparse(n.bases) if False else k in [ast.unparse(b) for b in n.bases] for k in ('type',)):
                continue
            if any(b.startswith('__') and not b.endswith('__') for b in [x.attr for x in ast.walk(s) if isinstance(x, ast.Attribute)]):
                continue
            if any('ExtensionNode' in ast.unparse(b) for b in n.bases):
                continue
            doc = [s.body[0]] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
            body = s.body[len(doc):]
            if not body or len(body) < 2:
                continue
            self.count += 1
            nm = '_body%s_of_%s' % (s.name if s.name[0] == '_' else '_pub_' + s.name, n.name)
            a = s.args
            h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x.arg) for x in a.args], a.vararg, [], [], a.kwarg, []), body, [], type_params=[])
            call = ast.Call(ast.Attribute(name(a.args[0].arg), nm, ast.Load()), [name(x.arg) for x in a.args[1:]] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                            [ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else [])
            s.body = doc + [ast.Return(call) if s.name != '__init__' else ast.Expr(call)]
            out.append(h)
        n.body = out
        self.cls.pop()
        return n


class Outline(Base):
    """the body of every compound statement at the end of a method in a helper method"""
    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            out.append(s)
            if isinstance(s, ast.ClassDef):
                self.visit_ClassDef(s)
            if not isinstance(s, ast.FunctionDef) or bad(s) or isgen(s) or s.decorator_list or s.args.kwonlyargs or s.args.vararg or s.args.kwarg or not s.args.args or s.args.args[0].arg != 'self':
                continue
            if any('ExtensionNode' in ast.unparse(b) for b in n.bases):
                continue
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' and not x.args for x in ast.walk(s)):
                continue
            if any(b.startswith('__') and not b.endswith('__') for b in [x.attr for x in ast.walk(s) if isinstance(x, ast.Attribute)]):
                continue
            doc = [s.body[0]] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
            body = s.body[len(doc):]
            k = len(body) // 2
            if k < 1:
                continue
            head, tail = body[:k], body[k:]
            if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Delete)) for t in body for x in ast.walk(t)):
                continue
            # names certainly assigned before
            sure = {a.arg for a in s.args.args}
            maybe = set(sure)
            for t in head:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        maybe.add(x.id)
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        maybe |= {(z.asname or z.name).split('.')[0] for z in x.names}
                if isinstance(t, ast.Assign):
                    for x in t.targets:
                        for z in ast.walk(x):
                            if isinstance(z, ast.Name):
                                sure.add(z.id)
                if isinstance(t, ast.If) and t.orelse and all(isinstance(b[-1], (ast.Assign)) for b in (t.body, t.orelse)):
                    def asd(b):
                        return {z.id for y in b if isinstance(y, ast.Assign) for x in y.targets for z in ast.walk(x) if isinstance(z, ast.Name)}
                    sure |= asd(t.body) & asd(t.orelse)
            used = [x.id for t in tail for x in ast.walk(t) if isinstance(x, ast.Name)]
            need = [x for x in dict.fromkeys(used) if x in maybe]
            if any(x not in sure for x in need):
                continue
            self.count += 1
            nm = '_rest_%s_of_%s' % (s.name if s.name[0] == '_' else '_pub_' + s.name, n.name)
            ps = [x for x in need if x != 'self']
            h = ast.FunctionDef(nm, ast.arguments([], [ast.arg('self')] + [ast.arg(x) for x in ps], None, [], [], None, []), tail, [], type_params=[])
            call = ast.Call(ast.Attribute(name('self'), nm, ast.Load()), [name(x) for x in ps], [])
            s.body = doc + head + [ast.Return(call) if s.name != '__init__' else ast.Expr(call)]
            out.append(h)
        n.body = out
        return n


class Inline(Blocks):
    """inline locals that are assigned and used in the next statement only"""
    def lists(self, f):
        uses = {}
        for x in ast.walk(f):
            if isinstance(x, ast.Name):
                uses.setdefault(x.id, []).append(x)
        params = {a.arg for a in f.args.args}

        def walk(n):
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(n, fld, None)
                if not isinstance(b, list):
                    continue
                i = 0
                while i < len(b):
                    s = b[i]
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        walk(s)
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and i + 1 < len(b):
                        nm = s.targets[0].id
                        t = b[i + 1]
                        if nm not in params and len(uses.get(nm, ())) == 2 and isinstance(t, (ast.Return, ast.Raise, ast.Expr)) and not isinstance(s.value, (ast.Yield,)):
                            exprs = t.exc if isinstance(t, ast.Raise) else t.value
                            ok = None
                            if isinstance(exprs, ast.Name) and exprs.id == nm:
                                ok = 'self'
                            elif isinstance(exprs, ast.Call) and isinstance(exprs.func, ast.Name) and exprs.args and isinstance(exprs.args[0], ast.Name) and exprs.args[0].id == nm:
                                ok = 'arg'
                            if ok:
                                self.count += 1
                                if ok == 'self':
                                    if isinstance(t, ast.Raise):
                                        t.exc = s.value
                                    else:
                                        t.value = s.value
                                else:
                                    exprs.args[0] = s.value
                                del b[i]
                                continue
                    i += 1
            for h in getattr(n, 'handlers', []) or []:
                walk(h)
        walk(f)


class Fmt(Base):
    """string formatting with str.format where only %s and %d of plain names occur"""


class AugAttr(Blocks):
    """x = self.a at first use: attributes of self read in a condition through a local"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and not isinstance(s.value, (ast.Name, ast.Constant)):
            v = self.new('value')
            self.count += 1
            return [asg(v, s.value), ast.Assign(s.targets, name(v))]
        return [s]


class SplitTuple(Blocks):
    """a, b = call() through a local; a, b = x, y with temporaries"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call):
            v = self.new('pair')
            self.count += 1
            return [asg(v, s.value), ast.Assign(s.targets, name(v))]
        return [s]


class Attr(Base):
    """getattr and setattr with constant names instead of attributes: not used"""


class TryReturn(Blocks):
    """a return at the end of every function without one"""
    def visit_FunctionDef(self, n):
        super(TryReturn, self).visit_FunctionDef(n)
        if not bad(n) and not isgen(n) and not isinstance(n.body[-1], (ast.Return, ast.Raise)):
            n.body.append(ast.Return(ast.Constant(None)))
            self.count += 1
        return n


class Kwargs(Base):
    """positional None defaults: keywords of super().__init__ calls stay; %-format tuples: (x,) for single values"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and n.left.value.replace('%%', '').count('%') == 1 and isinstance(n.right, (ast.Call, ast.Subscript)) and '%(' not in n.left.value:
            pass
        return n


KINDS = dict(ret=Ret, cond=Cond, invert=Invert, compare=Compare, rename=Rename, loop=Loop, loopvar=LoopVar, args=Args, comploop=CompLoop, nop=Nop, nestand=NestAnd, early=Early, ternary=TernaryIf,
             msg=Msg, helper=Helper, outline=Outline, inline=Inline, value=AugAttr, split=SplitTuple, tryret=TryReturn)


def main():
    kind, repo, only = sys.argv[1], sys.argv[2], sys.argv[3:]
    total = 0
    for top in ('mdp', 'bimdp'):
        for d, _, fs in os.walk(os.path.join(repo, top)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                if not f.endswith('.py') or any(k in p for k in SKIP):
                    continue
                if only and os.path.relpath(p, repo) not in only:
                    continue
                src = open(p).read()
                tree = ast.parse(src)
                t = KINDS[kind]()
                tree = ast.fix_missing_locations(t.visit(tree))
                if t.count:
                    total += t.count
                    out = ast.unparse(tree) + '\n'
                    compile(out, p, 'exec')
                    open(p, 'w').write(out)
    print(kind, total, 'places')


if __name__ == '__main__':
    main()
