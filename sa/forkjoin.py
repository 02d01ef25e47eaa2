"""Fork, train and join compared with training in one go (P01)."""
import itertools

from .model import AnalysisError, ClassInfo
from .proto import Tok, array, exc_is, is_tok, trace_lines
from .terms import TermPolicy, deep_copy, canon, field_canon
from .walker import (ClassV, Const, Ctx, Exc, HList, HObj, NONE, Op, PathLimit, RAISE, RETURN, Tup, Walker, show)

BASE = 'mdp.parallel.parallelnodes.ParallelExtensionNode'


def refused(prog, e):
    return exc_is(prog, e, ['NotForkableParallelException'])


class Case(object):
    """one way to build a node"""

    def __init__(self, label, build, labelled=None):
        self.label, self.build, self.labelled = label, build, labelled


class Run(object):
    def __init__(self, c, ci, case, datasets):
        self.c, self.ci, self.case, self.datasets = c, ci, case, datasets
        self.prog = c.prog
        labels = {}
        self.args = []
        for i, ls in enumerate(datasets):
            if ls is None:
                self.args.append([])
            elif isinstance(ls, str):
                self.args.append([Const(ls)])
            else:
                t = Tok('xlabels%d' % i)
                labels[t] = list(ls)
                self.args.append([t])
        self.pol = TermPolicy(c.prog, labels)
        self.pol.inject(c.prog.find_class(BASE))
        self.w = Walker(c.prog, self.pol)
        self.construct = ci.name + case.label

    # ------------------------------------------------------------- plumbing
    def each(self, states, f):
        out = []
        for s in states:
            out.extend(f(s))
        return out

    def ok(self, states, ref, name, args, errors):
        """states after a call that returned; errors collects the exceptions"""
        out = []
        for s in states:
            for k, v, s1 in self.w.run_method(s, ref, name, list(args)):
                if k == RETURN:
                    out.append((v, s1))
                else:
                    errors.append((v, s1))
        return out

    def data(self, st):
        xs = []
        for i in range(len(self.datasets)):
            xs.append(array(st, 'x%d' % i, cols=getattr(self.case, 'cols', None) or Tok('D'), dtype=Tok('dt')))
        return xs

    # --------------------------------------------------------------- oracle
    def run(self):
        c, w = self.c, self.w
        st = w.new_state()
        st.notes['x'] = True
        for t in self.pol.labels:
            st.notes[('ovr', t, 'shape')] = Tup([Tok('rows')])
        xs = self.data(st)
        loc = self.ci.module.relpath + ':%d' % self.ci.node.lineno
        built = self.case.build(self, st)
        if not built:
            return 'not built'
        for (a, b), s0 in built:
            todo = [(s0, 0)]
            while todo:
                s, phase = todo.pop()
                if phase > 4:
                    break
                tr = [v for v, s1 in self.ok([s], a, 'is_training', [], [])]
                if not tr or tr[0] != Const(True):
                    break
                errs = []
                serial = [s]
                for x, la in zip(xs, self.args):
                    serial = [s1 for v, s1 in self.ok(serial, a, 'train', [x] + la, errs)]
                if not serial:
                    # the algorithm refuses these arguments in any case
                    return 'not trainable'
                for plan in ('fork-fork-join-join', 'fork-fork-join-join-reversed', 'fork-join-fork-join', 'train-fork-join'):
                    res = self.forked(serial, b, xs, plan, loc, phase)
                    if res == 'refused':
                        c.count('phases that refuse to fork')
                        return 'refused'
                    for s1 in res:
                        self.compare(s1, a, b, plan, loc, phase)
                # the next phase starts from a copy of the closed node
                rest = [v for v, s1 in self.ok(serial[:1], a, 'get_remaining_train_phase', [], [])]
                if rest and rest[0] in (Const(0), Const(1)):
                    break
                for v, s1 in self.ok(serial[:1], a, 'stop_training', [], [])[:1]:
                    b = deep_copy(s1, a, {})
                    todo = [(s1, phase + 1)]
                    c.count('further phases')
        c.visits(w)
        return 'done'

    def forked(self, states, b, xs, plan, loc, phase, quiet=False):
        c = self.c
        errs = []
        path = ['phase %d, data %s, %s' % (phase, self.datasets, plan)]
        n = len(xs)
        cur = [(s, {}) for s in states]
        order = list(range(n))
        if plan == 'fork-join-fork-join':
            ops = [o for i in order for o in (('fork', i), ('train', i), ('join', i))]
        elif plan == 'train-fork-join':
            ops = [('local', 0)] + [o for i in order[1:] for o in (('fork', i), ('train', i), ('join', i))]
        else:
            jo = list(reversed(order)) if plan.endswith('reversed') else order
            ops = [('fork', i) for i in order] + [('train', i) for i in order] + [('join', i) for i in jo]
        for op, i in ops:
            nxt = []
            for s, forks in cur:
                if op == 'fork':
                    rs = self.w.run_method(s, b, 'fork', [])
                elif op == 'train':
                    rs = self.w.run_method(s, forks[i], 'train', [xs[i]] + self.args[i])
                elif op == 'local':
                    rs = self.w.run_method(s, b, 'train', [xs[i]] + self.args[i])
                else:
                    rs = self.w.run_method(s, b, 'join', [forks[i]])
                for k, v, s1 in rs:
                    if k == RAISE and op == 'fork' and refused(self.prog, v):
                        return 'refused'
                    if k == RAISE and op == 'local':
                        continue
                    if not quiet:
                        c.obl('no-error', self.construct, k == RETURN, (v.fi.loc(v.node) if k == RAISE and v.fi and v.node is not None else loc),
                              '%s of fork %d fails with %s' % (op, i, getattr(v, 'name', '')), path + trace_lines(s1)[-8:])
                    if k != RETURN:
                        continue
                    f = dict(forks)
                    if op == 'fork':
                        ok = isinstance(s1.obj(v), HObj) and s1.obj(v).cls is not None and self.prog.is_subclass(s1.obj(v).cls, self.ci) and v != b
                        if not quiet:
                            c.obl('fork-class', self.construct, ok, loc, 'fork returns %s' % show(v), path)
                        if not ok:
                            continue
                        f[i] = v
                    nxt.append((s1, f))
            cur = nxt
        c.count('schedules')
        return [s for s, f in cur]

    def compare(self, s, a, b, plan, loc, phase):
        bag = plan.endswith('reversed')      # collected items have the order in which the forks were joined
        fa, fb = field_canon(s, a, bag=bag), field_canon(s, b, bag=bag)
        for k in sorted(set(fa) | set(fb)):
            x, y = fa.get(k), fb.get(k)
            if x != y and k == '_output_dim' and 'None' in (x, y):
                continue        # determined when it is first needed
            if x != y:
                # show the difference only
                i = next((j for j in range(min(len(x or ''), len(y or ''))) if x[j] != y[j]), 0)
                x, y = x and ('...' + x[max(0, i - 60):i + 160]), y and ('...' + y[max(0, i - 60):i + 160])
            self.c.obl('same-state', self.construct, x == y, loc, 'attribute %s after %s (phase %d, labels %s): trained in one go %s, forked and joined %s' % (
                k, plan, phase, self.datasets, x, y))


def simple_case(label, kwargs):
    def build(run, st):
        out = []
        ctx = Ctx(run.prog.method(run.ci, '__init__'), None)
        res = [((), st)]
        for i in range(2):
            nxt = []
            for refs, s in res:
                for v, s1 in run.w.construct(run.ci, [], dict(kwargs), None, ctx, s):
                    if not isinstance(v, Exc):
                        nxt.append((refs + (v,), s1))
            res = nxt[:4]
        return res
    return Case(label, build)


def options(prog, ci):
    """constructor arguments of the class: (required, optional)"""
    init = prog.method(ci, '__init__')
    a = init.node.args
    names = [x.arg for x in a.args][1:]
    nd = len(a.defaults)
    return names[:len(names) - nd], names[len(names) - nd:] if nd else []


def node_classes(prog):
    """node classes whose fork is implemented"""
    pol = TermPolicy(prog)
    base = prog.find_class(BASE)
    pol.inject(base)
    node = prog.find_class('mdp.signal_node.Node')
    default = base.methods.get('_fork')
    if default is None:
        raise AnalysisError('ParallelExtensionNode._fork not found')
    out = []
    for k in prog.subclasses(node):
        if prog.is_subclass(k, base) or k is node:
            continue
        f = pol.find_method(k, '_fork')
        if f is not None and f is not default:
            out.append(k)
    return sorted(out, key=lambda k: k.qualname)


# ------------------------------------------------------------ nested nodes
def named(prog, name):
    ks = [k for k in prog.subclasses(prog.find_class('mdp.signal_node.Node')) if k.name == name]
    if len(ks) != 1:
        raise AnalysisError('node class %s not found' % name)
    return ks[0]


def nested_case(label, plan):
    """plan: (kind, [child class names], child dimension)"""
    kind, kids, dim = plan

    def one(run, st):
        w, ctx = run.w, Ctx(run.prog.method(run.ci, '__init__'), None)

        def make(ci, args, kw, states):
            out = []
            for v0, s in states:
                for v, s1 in w.construct(ci, args(v0), dict(kw), None, ctx, s):
                    if not isinstance(v, Exc):
                        out.append((v0 + (v,), s1))
            return out[:4]
        states = [((), st)]
        for k in kids:
            ci = run.prog.find_class(k) if '.' in k else named(run.prog, k)
            states = make(ci, lambda v0: [], {'input_dim': dim} if dim is not None else {}, states)
        res = []
        for vs, s in states:
            s = s.copy()
            if kind == 'nodes':
                args = [s.alloc(HList(vs))]
            elif kind == 'node':
                args = [vs[0], Const(2)]
            else:
                r = w.construct(run.prog.find_class(kind), [s.alloc(HList(vs))], {}, None, ctx, s)
                r = [x for x in r if not isinstance(x[0], Exc)]
                if not r:
                    continue
                v, s = r[0]
                args = [v]
            for v, s1 in w.construct(run.ci, args, {}, None, ctx, s):
                if not isinstance(v, Exc):
                    res.append((v, s1))
        return res

    def build(run, st):
        out = []
        for a, s in one(run, st)[:2]:
            for b, s1 in one(run, s)[:2]:
                out.append(((a, b), s1))
        return out[:2]
    c = Case(label, build)
    c.cols = Const(4) if dim is not None else None
    return c


def option_values(c, ci):
    """constructor arguments away from their defaults: one dictionary per option, and all that work together"""
    import ast
    prog = c.prog
    init = prog.method(ci, '__init__')
    a = init.node.args
    names = [x.arg for x in a.args][1:]
    defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    vals = {}
    for n in names:
        d = defaults.get(n)
        if n in ('input_dim', 'dtype'):
            vals[n] = Tok('D' if n == 'input_dim' else 'dt')
        elif isinstance(d, ast.Constant) and isinstance(d.value, bool):
            vals[n] = Const(not d.value)
        else:
            vals[n] = Tok('opt_' + n)
    works = []
    for n in sorted(vals):
        if works_with(c, ci, {n: vals[n]}):
            works.append(n)
    out = []
    if len(works) > 1 and works_with(c, ci, {n: vals[n] for n in works}):
        out.append({n: vals[n] for n in works})
    else:
        out.extend({n: vals[n]} for n in works)
    return out


def works_with(c, ci, kw):
    run = Run(c, ci, simple_case('', kw), [None])
    st = run.w.new_state()
    try:
        return bool(run.case.build(run, st))
    except PathLimit:
        return False
