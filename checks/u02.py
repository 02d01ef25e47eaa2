"""Operations find the attributes they read."""
import ast
import multiprocessing
import os
import sys
from concurrent.futures import BrokenExecutor, ProcessPoolExecutor

from sa.attrs import Attrs, NONE, SELF, St, TRUE, FALSE
from sa.effects import Effects
from sa.model import ClassInfo

TITLE = 'Every operation of a node finds the attributes it needs'
RULES = ('For each class: definite assignment of attributes over the life of an object (constructor with symbolic options; train once or more and stop_training for every phase; then '
         'every public operation), methods inlined through the class, branch conditions over unchanged values correlated. An attribute read on a path that never set it, or an operation '
         'on an attribute that still is the None placeholder, is a violation',)
ASSUMPTIONS = ['loops run at least once', 'attributes stored by other objects or by code outside of the class are assumed present', 'constructor options are independent of each other']
OPS = ('execute', 'inverse', 'label', 'prob', 'rank')
BASE = ('train', 'stop_training', 'execute', 'inverse', 'save', 'copy')
NEUTRAL = ('copy', 'save', '__add__')
# classes whose operations are only defined after other operations, or whose attributes come from a metaclass
PROTOCOL = {'Classifier': 'wrapper of a shogun object, set_classifier comes first', 'StringTemplate': 'template comes from the metaclass', 'UnicodeTemplate': 'template comes from the metaclass',
            'OrderedDict': 'private names are mangled'}
ACCUMULATE = ('update', 'add_', 'fix')


def run(c):
    prog = c.prog
    eng = Effects(prog)
    node = prog.find_class('Node', 'mdp.signal_node')
    ext = external(prog)
    mixin = prog.find_class('ExtensionNode')
    jobs = [(life, ci) for ci in [node] + prog.subclasses(node) if not prog.is_subclass(ci, mixin)]
    jobs += [(helper, ci) for ci in prog.classes if not prog.is_subclass(ci, node) and not any(prog.is_subclass(ci, x) for x in ('Exception', 'type')) and ci.name not in PROTOCOL]
    jobs.sort(key=lambda j: (not j[1].name.startswith('Parallel'), j[1].name != 'FastICANode', j[1].module.relpath, j[1].name))
    funcs = {(f.module.relpath, f.qualname, f.node.lineno): f for f in prog.all_functions()}
    for r in spread(jobs, prog, eng, ext):
        for k, n in r.counts:
            c.count(k, n)
        for k in r.ids:
            if k in funcs:
                c.visit(funcs[k])
        for o in r.obls:
            c.obl(*o)
    c.need('classes', 60)
    c.need('helper classes', 40)


class Part(object):
    """what the analysis of one class reports"""
    def __init__(self):
        self.counts, self.obls, self.ids = [], [], []

    def count(self, k, n=1):
        self.counts.append((k, n))

    def obl(self, *a):
        self.obls.append(a)

    def visit(self, f):
        self.ids.append((f.module.relpath, f.qualname, f.node.lineno))


def spread(jobs, prog, eng, ext):
    """the classes are independent of each other: one process per core"""
    sys.setrecursionlimit(20000)
    out = [None] * len(jobs)
    try:
        with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context('fork'), initializer=start, initargs=(jobs, prog, eng, ext)) as ex:
            out = list(ex.map(one, range(len(jobs))))
    except (OSError, BrokenExecutor):
        start(jobs, prog, eng, ext)
        out = [one(i) for i in range(len(jobs))]
    return out


_work = []


def start(*a):
    sys.setrecursionlimit(20000)
    _work[:] = a


def one(i):
    jobs, prog, eng, ext = _work
    p = Part()
    f, ci = jobs[i]
    f(p, prog, ci, eng, ext)
    return p


def external(prog):
    """attributes stored on objects other than self"""
    out = set()
    for f in prog.all_functions():
        me = f.params()[0][0] if f.params() else None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == me):
                out.add(n.attr)
    return out


def symbolic(fi, selfv):
    args = []
    kw = {}
    for p in fi.params()[0 if fi.is_static else 1:]:
        if p[3] == 'pos':
            args.append(('p', p[0]) if p[1] else ('arr', p[0]))
        elif p[3] == 'kwonly':
            kw[p[0]] = ('p', p[0])
    return [selfv] + args, kw


def life(c, prog, ci, eng, ext):
    a = Attrs(prog, ci, eng.getter, eng.setter, ext)
    init = prog.method(ci, '__init__')
    name = '%s:%s' % (ci.module.relpath, ci.name)
    if init is None:
        return
    c.count('classes')
    args, kw = symbolic(init, SELF)
    states = a.merge([s for s, _ in a.enter(init, args, kw, St(), init, init.node)])
    notes = set()

    def call(nm, states, args=(), kw=None, star=False):
        out = []
        f = prog.method(ci, nm)
        if f is None:
            return states
        for s in states:
            b = [] if f.is_static else [SELF]
            for y, v in a.enter(f, b + list(args), kw or {}, s, f, f.node, star):
                out.append((y, v))
        return out

    def only(res):
        return a.merge([y for y, _ in res])

    after = []
    work = states
    train = []
    for y, v in call('is_trainable', states):
        t, f = a.assume(v, True, y), a.assume(v, False, y)
        if t is not None:
            train.append(t)
        if f is not None:
            after.append(f)
    cur = a.merge(train)
    for phase in range(5):
        if not cur:
            break
        once = only(call('train', cur, [('arr', 'x')], star=True))
        twice = only(call('train', once, [('arr', 'x2')], star=True))
        cur = only(call('stop_training', a.merge(once + twice)))
        nxt = []
        for y, v in call('is_training', cur):
            t, f = a.assume(v, True, y), a.assume(v, False, y)
            if f is not None:
                after.append(f)
            if t is not None and a.truth(v, y) is True:
                nxt.append(t)
        cur = a.merge(nxt)
    after = a.merge(after)
    ready = list(after)
    public = []
    for k in prog.mro(ci):
        if isinstance(k, ClassInfo):
            for n, f in k.methods.items():
                if n not in public and n not in NEUTRAL and (not n.startswith('_') or n in ('__call__', '__repr__', '__str__')) and n not in ('train', 'stop_training') and not f.is_classmethod:
                    public.append(n)
    if ready:
        c.count('classes followed to the end')
    for n in ['execute', 'inverse'] + sorted(set(public) - {'execute', 'inverse'}):
        operation(c, prog, ci, a, n, ready)
    finish(c, prog, ci, a)
    c.count('abstract states at the end', len(after))


def helper(c, prog, ci, eng, ext):
    a = Attrs(prog, ci, eng.getter, eng.setter, ext)
    init = prog.method(ci, '__init__')
    if init is None:
        return
    c.count('helper classes')
    args, kw = symbolic(init, SELF)
    states = a.merge([s for s, _ in a.enter(init, args, kw, St(), init, init.node)])
    names = []
    for k in prog.mro(ci):
        if isinstance(k, ClassInfo):
            for n, f in k.methods.items():
                if n not in names and not f.is_classmethod and n != '__init__' and (not n.startswith('_') or n.startswith('__')):
                    names.append(n)
    # accumulators are updated before they are read
    for pre in ACCUMULATE * 2:          # and can be used again after fix
        for n in sorted(names):
            if n.startswith(pre) and prog.method(ci, 'fix') is not None:
                states = operation(c, prog, ci, a, n, states)
    for n in sorted(names):
        if not n.startswith(ACCUMULATE) or not prog.method(ci, 'fix'):
            operation(c, prog, ci, a, n, states)
    finish(c, prog, ci, a)


def operation(c, prog, ci, a, n, states):
    f = prog.method(ci, n)
    if f is None:
        return states
    c.count('operations')
    args, kw = symbolic(f, SELF)
    out = []
    for s in states:
        if n in s.attrs:                       # the instance replaces the method
            out.append(s)
            continue
        out += [y for y, _ in a.enter(f, args[1:] if f.is_static else args, kw, s, f, f.node)]
    return a.merge(out)


def finish(c, prog, ci, a):
    name = '%s:%s' % (ci.module.relpath, ci.name)
    for k in a.entered:
        c.visit(a.byid[k])
    c.count('reads', a.reads)
    for r in a.reports.values():
        cond = ', '.join(sorted(show(f, v) for f, v in r.facts.items() if known(f)))
        what = 'the attribute %s may not exist' % r.name if r.kind == 'missing' else '%s may still be None' % r.name
        c.obl(r.kind, '%s.%s@%s' % (name, r.name, r.fi.qualname), False, r.fi.loc(r.node), '%s: %s%s [via %s]' % (ci.name, what, ' when ' + cond if cond else '', ' > '.join(r.chain[:1] + r.chain[-1:])))
    if not a.reports:
        c.obl('missing', name, True)


def known(f):
    return '?' not in show(f, True)


def show(f, v):
    def t(x):
        if x[0] == 'c':
            return repr(x[2])
        if x[0] == 'p':
            return x[1]
        if x[0] == 'a':
            return t(x[1]) + '.' + x[2]
        if x[0] in ('is', '==', 'in', '<'):
            return '%s %s %s' % (t(x[1]), x[0], t(x[2]))
        if x[0] == 'not':
            return 'not ' + t(x[1])
        if x[0] == 'seq':
            return '(%s)' % ', '.join(t(y) for y in x[2])
        if x[0] == 'isinstance':
            return 'isinstance(%s, %s)' % (t(x[1]), x[2])
        return '?'
    return t(f) if v else 'not (%s)' % t(f)
