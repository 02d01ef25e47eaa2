"""Every option a constructor or an operation accepts reaches the code it controls."""
import ast

from sa.model import ClassInfo
from sa.options import Options, flows_into, mentions, owner, parents, trivial

TITLE = 'Every option a constructor or an operation accepts reaches the code it controls'
RULES = ('Def-use chains from every parameter through local names, calls, constructors and attributes: the value must reach a '
         'statement with an effect (ignored); a constructor or method that calls its own base version must bind the parameters '
         'both have, with their own values (handed-on); an attribute named after one parameter must not be set from another one (own-name).')
ASSUMPTIONS = ['an operation that leaves the repository (numpy, an unknown callee) uses its arguments']

# parameters that are documented not to have an effect, or that only keep a common interface
DOCUMENTED = {
    ('Flow.copy', 'protocol'), ('Node.copy', 'protocol'), ('FlowNode.copy', 'protocol'),
    ('CheckpointSaveFunction.__init__', 'binary'), ('deactivate_caching', 'cachedir'),
    ('_symeig_fake', 'turbo'), ('_symeig_fake', 'type'), ('_symeig_fake', 'overwrite'), ('nongeneral_svd', 'kwargs'),
    ('symeig_semidefinite_reg', 'eigenvectors'), ('symeig_semidefinite_ldl', 'eigenvectors'),
    ('symeig_semidefinite_pca', 'eigenvectors'), ('symeig_semidefinite_svd', 'eigenvectors'),
    ('symeig_semidefinite_svd', 'turbo'), ('symeig_semidefinite_svd', 'overwrite'),
    ('TemporaryDirectory.cleanup', '_warn'), ('NIPALSNode._stop_training', 'debug'),
    # handed to a hook of the same class that subclasses may replace
    ('TraceHTMLConverter.write_html', 'path'),
}


def run(c):
    o = Options(c.prog)
    table = used_as_value(c.prog)
    for fi in c.prog.all_functions():
        if '.test' in fi.module.name or isinstance(fi.node, ast.Lambda):
            continue
        c.visit(fi)
        ignored(c, o, fi, table)
        handed_on(c, o, fi)
        own_name(c, fi)
    c.need('options', 1000)
    c.need('parameters stored on the instance', 200)


def used_as_value(prog):
    """names of functions that are used as values (tables of functions with a common interface)"""
    out = set()
    for m in prog.modules.values():
        if '.test' in m.name:
            continue
        par = None
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Dict, ast.List, ast.Tuple)):
                for e in (x.values if isinstance(x, ast.Dict) else x.elts):
                    if isinstance(e, ast.Name):
                        out.add((m.name, e.id))
            elif isinstance(x, ast.Assign) and isinstance(x.value, ast.Name):
                out.add((m.name, x.value.id))
            elif isinstance(x, ast.Assign) and isinstance(x.value, ast.IfExp):
                for e in (x.value.body, x.value.orelse):
                    if isinstance(e, ast.Name):
                        out.add((m.name, e.id))
            elif isinstance(x, ast.Return) and isinstance(x.value, ast.Name):
                out.add((m.name, x.value.id))
    return out


def ignored(c, o, fi, table):
    if fi.parent is not None:
        return
    k, name = fi.cls, fi.name
    if k is not None and k.name.startswith('_'):
        return
    if k is None and (fi.module.name, name) in table and name.startswith('recf_'):
        return
    dunder = name.startswith('__') and name.endswith('__')
    if dunder and name != '__init__' and name not in ('__delitem__', '__setitem__', '__getitem__', '__call__', '__contains__'):
        return
    bases = []
    if k is not None and name != '__init__':
        bases = [m for m in (c.prog.method(b, name) for b in c.prog.mro(k)[1:] if isinstance(b, ClassInfo)) if m is not None]
        for ext in extended(c.prog, k):
            m = c.prog.method(ext, name)
            if m is not None:
                bases.append(m)
        if trivial(fi.node):
            return
    private = name.startswith('_') and not dunder
    for i, (p, hasd, d, kind) in enumerate(fi.params()):
        if k is not None and not fi.is_static and i == 0:
            continue
        star = kind in ('var', 'kw')
        option = hasd and not star
        if not option and private:
            continue
        if bases and (not option or name == '__init__'):
            # the interface comes from the base class
            continue
        if bases and star:
            continue
        if star and name == '__init__':
            pass
        if (fi.qualname, p) in DOCUMENTED:
            continue
        if p.startswith('_') and p.strip('_') == '':
            continue
        c.count('options')
        c.obl('ignored', '%s(%s)' % (fi.qualname, p), o.honoured(fi, p), fi.loc(),
              '%s accepts %s, but nothing depends on the value that is given' % (fi.qualname, p))


def extended(prog, k):
    """the node classes an extension class adds methods to"""
    return [b for b in prog.mro(k)[1:] if isinstance(b, ClassInfo)]


def base_call(c, o, fi, x):
    """the method a call of the own base version refers to: (FuncInfo, leading parameters already bound)"""
    k = fi.cls
    f = x.func
    if k is None or fi.is_static or not isinstance(f, ast.Attribute) or f.attr not in (fi.name, '__init__'):
        return []
    b = f.value
    if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super':
        return [t for t in (o.targets(x, fi) or []) if t[0] is not None]
    if isinstance(b, (ast.Name, ast.Attribute)) and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == fi.params()[0][0]:
        try:
            r = c.prog.resolve_in(fi.module, b.id) if isinstance(b, ast.Name) else None
        except Exception:
            r = None
        if r and r[0] == 'class' and r[1] in c.prog.mro(k) and r[1] is not k:
            m = c.prog.method(r[1], f.attr)
            return [(m, 0)] if m is not None else []
    return []


def handed_on(c, o, fi):
    if fi.cls is None or fi.parent is not None:
        return
    own = [p[0] for p in fi.params()][(0 if fi.is_static else 1):]
    if not own:
        return
    for x in ast.walk(fi.node):
        if not isinstance(x, ast.Call):
            continue
        ts = base_call(c, o, fi, x)
        same = bool(ts)
        if not ts:
            # another method of the same object, called with the own parameters
            f = x.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and not fi.is_static and f.value.id == fi.params()[0][0]:
                ts = o.targets(x, fi) or []
                if len(ts) != 1:
                    continue
        if not ts or (fi.name == '__new__'):
            continue
        m, skip = ts[0]
        star = any(isinstance(a, ast.Starred) for a in x.args) or any(kw.arg is None for kw in x.keywords)
        bound = {}
        for a in list(x.args) + [kw.value for kw in x.keywords]:
            q = o.bound_param(m, skip, x, a)
            if q:
                bound[q] = a
        if same:
            c.count('calls of the base version')
        for m2, skip2 in ts if same else []:
            named = {p[0] for p in m2.params()[skip2:]}
            for a in list(x.args) + [kw.value for kw in x.keywords]:
                q = o.bound_param(m2, skip2, x, a)
                if q and isinstance(a, ast.Name) and a.id in own and a.id in named:
                    c.obl('handed-on', '%s>%s(%s)' % (fi.qualname, m2.qualname, q), q == a.id, fi.loc(x),
                          '%s gives its %s to %s as %s' % (fi.qualname, a.id, m2.qualname, q))
        for q, hd, d, kind in m.params()[skip:]:
            if q not in own or kind not in ('pos', 'kwonly'):
                continue
            key = '%s>%s(%s)' % (fi.qualname, m.qualname, q)
            t = flows_into(fi.node, q)
            if q in bound:
                e = bound[q]
                if mentions(e, t):
                    c.obl('handed-on', key, True)
                    continue
                others = isinstance(e, ast.Name) and e.id in own and e.id != q
                ok = not others and (not same or not isinstance(e, ast.Constant) or o.honoured(fi, q))
                if same and fi.name != '__init__':
                    ok = not others
                c.obl('handed-on', key, ok, fi.loc(x), '%s gives %s to %s as its %s, instead of its own %s' % (
                    fi.qualname, ast.unparse(e)[:40], m.qualname, q, q))
            elif same and not star:
                # a parameter that the base version accepts as well is not given to it
                alt = used_elsewhere(fi, q, x)
                c.obl('handed-on', key, alt, fi.loc(x), '%s accepts %s, but calls %s without it' % (fi.qualname, q, m.qualname))


def used_elsewhere(fi, q, call):
    """the overriding method deals with the parameter itself"""
    inside = {id(n) for n in ast.walk(call)}
    t = flows_into(fi.node, q)
    par = parents(fi.node)
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Name) and n.id in t and isinstance(n.ctx, ast.Load) and id(n) not in inside:
            p = par.get(n)
            if isinstance(p, ast.Assign) and any(isinstance(z, ast.Attribute) and z.attr.lstrip('_') == q.lstrip('_') for z in p.targets):
                return True
    return False


def own_name(c, fi):
    own = [p[0] for p in fi.params()]
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in own:
            for t in x.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and own and t.value.id == own[0]:
                    q = t.attr.lstrip('_')
                    c.count('parameters stored on the instance')
                    c.obl('own-name', '%s.%s' % (fi.qualname, t.attr), not (q in own and q != x.value.id and not reassigned(fi.node, x.value.id)), fi.loc(x),
                          '%s stores %s under the name of its parameter %s' % (fi.qualname, x.value.id, q))


def reassigned(fn, name):
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(fn))
