"""Normal form of the source: a local that is assigned once and read once, as the first thing that the next statement evaluates, is replaced by its value.

A constant on the left of a comparison moves to the right.
Statements without effect (a constant kept in a local that nothing reads, `pass` beside other statements) are dropped.

The rewrite keeps the order of evaluation, so every analysis sees `if self.x is None:` also where the code says `missing = self.x is None; if missing:`.
"""
import ast

FRAMES = ('locals', 'vars', 'exec', 'eval', 'globals', 'dir')


SWAP = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Is: ast.Is, ast.IsNot: ast.IsNot, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}


def constant(e):
    return isinstance(e, ast.Constant) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant)


def normalise(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP and constant(n.left) and not constant(n.comparators[0]):
            n.left, n.ops, n.comparators = n.comparators[0], [SWAP[type(n.ops[0])]()], [n.left]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            function(n)
    return tree


def function(f):
    names = {}
    for n in ast.walk(f):
        if isinstance(n, ast.Name):
            if n.id in FRAMES:
                return
            names.setdefault(n.id, []).append(n)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                names.setdefault(x, []).extend((None, None, None))
        elif isinstance(n, ast.arg):
            names.setdefault(n.arg, []).extend((None, None, None))
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.setdefault(n.name, []).extend((None, None, None))
    dead = {k for k, l in names.items() if None not in l and all(isinstance(x.ctx, ast.Store) for x in l)}
    prune(f, dead)
    once = {k for k, l in names.items() if len(l) == 2 and None not in l}
    if once:
        lists(f, once)


def idle(s, dead):
    """a statement without any effect: pass, a constant, a constant kept in a local that nothing reads"""
    if isinstance(s, ast.Pass):
        return True
    if isinstance(s, ast.Expr):
        return isinstance(s.value, ast.Constant)
    return isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and all(isinstance(t, ast.Name) and t.id in dead for t in s.targets)


def prune(n, dead):
    for fld in ('body', 'orelse', 'finalbody'):
        b = getattr(n, fld, None)
        if not isinstance(b, list) or not b or not isinstance(b[0], ast.stmt):
            continue
        for s in b:
            if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                prune(s, dead)
        doc = fld == 'body' and isinstance(n, ast.FunctionDef) and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str)
        out = b[:1] if doc else []
        for s in b[len(out):]:
            if isinstance(s, ast.If) and isinstance(s.test, ast.Constant):
                out += [x for x in (s.body if s.test.value else s.orelse) if not idle(x, dead)]
            elif not idle(s, dead):
                out.append(s)
        if len(out) <= doc and fld == 'body':
            out.append(ast.copy_location(ast.Pass(), b[-1]))
        b[:] = out
    for h in getattr(n, 'handlers', None) or []:
        prune(h, dead)


def lists(n, once):
    for fld in ('body', 'orelse', 'finalbody'):
        b = getattr(n, fld, None)
        if isinstance(b, list):
            i = len(b) - 2
            for s in b:
                if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    lists(s, once)
            while i >= 0:
                s = b[i]
                if i + 1 < len(b) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in once and inline(b[i + 1], s.targets[0].id, s.value):
                    del b[i]
                i -= 1
    for h in getattr(n, 'handlers', None) or []:
        lists(h, once)


ROOTS = {ast.If: ('test',), ast.Return: ('value',), ast.For: ('iter',), ast.Raise: ('exc',), ast.Expr: ('value',), ast.Assign: ('value',)}


def inline(t, v, value):
    for fld in ROOTS.get(type(t), ()):
        e = getattr(t, fld)
        if e is None:
            return False
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)) for x in ast.walk(value)):
            return False
        if isinstance(e, ast.Name) and e.id == v:
            if isinstance(t, ast.Assign) and isinstance(value, (ast.List, ast.Dict, ast.Set)):
                return False
            setattr(t, fld, value)
            return True
        return put(e, v, value) == 'done'
    return False


def put(e, v, value):
    """'done' | 'pure' (nothing evaluated yet that matters) | 'stop'"""
    if isinstance(e, (ast.Name, ast.Constant)):
        return 'pure'
    for fld, order in children(e):
        x = getattr(e, fld) if order is None else getattr(e, fld)[order]
        if isinstance(x, ast.Name) and x.id == v:
            if order is None:
                setattr(e, fld, value)
            else:
                getattr(e, fld)[order] = value
            return 'done'
        r = put(x, v, value)
        if r != 'pure':
            return r
    if isinstance(e, (ast.Tuple, ast.List)):
        return 'pure'
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return 'pure'
    if isinstance(e, ast.Attribute) and not any(isinstance(x, (ast.Call, ast.Attribute, ast.Subscript)) for x in ast.walk(value)):
        return 'pure'
    return 'stop'


def children(e):
    if isinstance(e, ast.Attribute):
        return [('value', None)]
    if isinstance(e, ast.Subscript):
        return [('value', None), ('slice', None)]
    if isinstance(e, ast.Call):
        out = []
        f = e.func
        if not isinstance(f, ast.Name):
            if isinstance(f, ast.Attribute):
                # looking up a method has no effect
                while isinstance(f, ast.Attribute):
                    f = f.value
                if not isinstance(f, ast.Name):
                    out.append(('func', None))
                elif isinstance(e.func.value, ast.Name):
                    out.append(('func', None)) if False else None
            else:
                out.append(('func', None))
        for i, a in enumerate(e.args):
            if isinstance(a, ast.Starred):
                break
            out.append(('args', i))
        return out
    if isinstance(e, ast.BinOp):
        return [('left', None), ('right', None)]
    if isinstance(e, ast.UnaryOp):
        return [('operand', None)]
    if isinstance(e, ast.BoolOp):
        return [('values', 0)]
    if isinstance(e, ast.IfExp):
        return [('test', None)]
    if isinstance(e, ast.Compare):
        return [('left', None), ('comparators', 0)]
    if isinstance(e, (ast.Tuple, ast.List)):
        return [('elts', i) for i in range(len(e.elts))]
    return []
