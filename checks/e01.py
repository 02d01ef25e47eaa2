"""Extension activation and deactivation."""
import itertools

from sa.extmodel import ExtPolicy
from sa.model import AnalysisError
from sa.proto import Hook, Tok, exc_is, hook_events, trace_lines
from sa.walker import Const, Exc, HList, NONE, RAISE, RETURN, Tup, Walker, show

TITLE = 'Extensions are injected completely and removed without a trace'
RULES = ('The registration, activation and deactivation code is interpreted on abstract class hierarchies (chains of 2 classes; thorough: 3) with every placement of '
         'own, inherited and new attributes and two extensions registered on every subset of the classes; after every operation of every history '
         '(activation in both orders, repeated, failing set-up or tear-down, name collision, context manager and decorator with failing body) attribute lookup on every class, '
         'the originals, the list of active extensions and, with none active, the class dictionaries are compared with the specification.')
ASSUMPTIONS = ['attribute values are tokens; the metaclass docstring wrapping is not part of this check']
ORIG = '_non_extension_'


class World(object):
    """one scenario: classes, own attributes, registrations"""

    def __init__(self, c, w, pol, st, nclasses, own, reg, static=False, label=''):
        self.c, self.w, self.pol, self.label = c, w, pol, label
        self.reg = reg                       # {ext: [(class index, attr)]} in registration order
        self.refs = []
        for i in range(nclasses):
            f = {}
            for a in sorted({a for j, a in own if j == i}):
                f[a] = Tok('%sown_%s_K%d' % ('static_' if static and i == nclasses - 1 else '', a, i))
            self.refs.append(pol.new_class(st, 'K%d' % i, self.refs[-1:], f))
        self.initial = [dict(st.obj(r).fields) for r in self.refs]
        self.st = st

    def register(self, hooks=()):
        states = [self.st]
        for e in sorted(self.reg):
            for h in hooks:
                if h.endswith('_' + e):
                    states = self.decorate(states, 'extension_setup' if h.startswith('setup') else 'extension_teardown', [Const(e)], Hook(h))
            for i, a in self.reg[e]:
                states = self.decorate(states, 'extension_method', [Const(e), self.refs[i], Const(a)], Tok('%s_%s_K%d' % (e, a, i)))
        return states

    def decorate(self, states, name, args, value):
        out = []
        for s in states:
            for k, v, s1 in self.w.run_func(s, self.pol.fn(name), args):
                if k != RETURN:
                    self.c.obl('registers', name, False, v.fi.loc(v.node) if v.fi else '', 'raises %s' % v.name)
                    continue
                for k2, v2, s2 in self.pol.call_value(self.w, s1, v, [value]):
                    ok = k2 == RETURN and v2 == value
                    self.c.obl('registers', name, ok, self.pol.fn(name).loc(), 'the decorated function is replaced by %s' % (show(v2) if k2 == RETURN else v2.name))
                    if k2 == RETURN:
                        out.append(s2)
        if not out:
            raise AnalysisError('no state after %s' % name)
        return out

    # ------------------------------------------------------------- oracle
    def lookup(self, i, a, active, original=False):
        for j in range(i, -1, -1):
            if not original:
                for e in active:
                    if (j, a) in self.reg.get(e, ()):
                        return Tok('%s_%s_K%d' % (e, a, j))
            if a in self.initial[j]:
                return self.initial[j][a]
        return None

    def verify(self, s, active, rule, fn, history, msg=''):
        c = self.c
        loc = self.pol.fn(fn).loc()
        path = ['classes K0..K%d in one line of inheritance, own attributes %s, registered %s' % (
            len(self.refs) - 1, [sorted(d) for d in self.initial], self.reg)] + history
        for k, v, s1 in self.pol.call(self.w, [s], 'get_active_extensions'):
            o = s1.obj(v) if k == RETURN else None
            got = sorted(show(x) for x in o.items) if isinstance(o, HList) else None
            c.obl(rule + ':active', fn, got == sorted(repr(e) for e in active) or got == sorted(show(Const(e)) for e in active), loc,
                  'extensions %s are reported active, expected %s' % (got, sorted(active)), path)
        attrs = sorted({a for d in self.initial for a in d} | {a for r in self.reg.values() for _, a in r})
        for i, r in enumerate(self.refs):
            for a in attrs:
                got, want = self.pol.find(s, r, a), self.lookup(i, a, active)
                c.obl(rule + ':attribute', fn, got == want, loc, 'with %s active %s.%s is %s, expected %s' % (
                    sorted(active) or 'no extension', s.obj(r).name, a, got and show(got), want and show(want)), path)
                if any((i, a) in self.reg.get(e, ()) for e in active):
                    got, want = self.pol.find(s, r, ORIG + a), self.lookup(i, a, (), True)
                    c.obl(rule + ':original', fn, got == want, loc, 'with %s active %s.%s%s is %s, expected %s' % (
                        sorted(active), s.obj(r).name, ORIG, a, got and show(got), want and show(want)), path)
            if not active:
                c.obl(rule + ':dictionary', fn, s.obj(r).fields == self.initial[i], loc, 'the dictionary of %s is %s, it was %s before' % (
                    s.obj(r).name, sorted('%s=%s' % (x, show(y)) for x, y in s.obj(r).fields.items()), sorted(self.initial[i])), path)

    def collides(self, e, active):
        return any(x in self.reg.get(f, ()) for f in active for x in self.reg[e])


def subsets(xs, least=0):
    for k in range(least, len(xs) + 1):
        for t in itertools.combinations(xs, k):
            yield t


def new(c, fail=()):
    pol = ExtPolicy(c.prog, fail)
    w = Walker(c.prog, pol)
    return pol, w, pol.start(w)


def run(c):
    histories(c)
    failures(c)
    managers(c)
    classes(c)
    c.need('operations', 500)
    c.need('histories', 100)


def histories(c):
    n = 3 if c.tier == 'thorough' else 2
    cl = list(range(n))
    for own in subsets(cl):
        for se in subsets(cl, 1):
            for sf in subsets(cl):
                for rev in ((False, True) if len(se) > 1 or len(sf) > 1 else (False,)):
                    for static in ((False, True) if n - 1 in own and not rev else (False,)):
                        eorder = [(i, 'foo') for i in se]
                        forder = [(i, 'foo') for i in sf]
                        if rev:
                            eorder.reverse()
                            forder.reverse()
                        # a second attribute in front, so that a collision is met half way
                        reg = {'E': eorder, 'F': [(0, 'bar')] + forder}
                        for first, last in (('E', 'E'), ('E', 'F'), ('F', 'E'), ('F', 'F')):
                            pol, w, st = new(c)
                            world = World(c, w, pol, st, n, [(i, 'foo') for i in own] + [(1, 'bar')], reg, static)
                            history(c, world, first, last)
                            c.visits(w)
                            c.count('histories')


def step(c, world, states, op, ext, active, hist):
    """run one operation in every state -> (states, active)"""
    fn = op + '_extension'
    hist = hist + ['%s(%r)' % (fn, ext)]
    res = world.pol.call(world.w, states, fn, Const(ext))
    out, new_active = [], active
    for k, v, s in res:
        c.count('operations')
        if op == 'activate' and ext not in active and world.collides(ext, active):
            ok = k == RAISE and exc_is(c.prog, v, ['ExtensionException'])
            c.obl('collision', fn, ok, world.pol.fn(fn).loc(), 'two extensions overwrite the same attribute of a class, but %s' % (
                'nothing is raised' if k == RETURN else '%s is raised' % v.name), hist)
            world.verify(s, active, 'collision', fn, hist)
        else:
            c.obl('succeeds', fn, k == RETURN, world.pol.fn(fn).loc(), 'fails with %s' % (getattr(v, 'name', '')), hist + trace_lines(s)[-6:])
            new_active = (active | {ext}) if op == 'activate' else (active - {ext})
            if k == RETURN:
                world.verify(s, new_active, op, fn, hist)
        out.append(s)
    return out, new_active, hist


def history(c, world, first, last):
    second = 'F' if first == 'E' else 'E'
    states, active, hist = world.register(), frozenset(), []
    for op, ext in (('activate', first), ('activate', first), ('activate', second), ('deactivate', 'F' if last == 'E' else 'E'),
                    ('deactivate', 'F' if last == 'E' else 'E'), ('deactivate', last), ('activate', second), ('deactivate', second)):
        states, active, hist = step(c, world, states, op, ext, active, hist)
        if not states:
            return
    for op in ('activate_extension', 'deactivate_extension'):
        for k, v, s in world.pol.call(world.w, states, op, Const('unknown')):
            c.obl('unknown', op, k == RAISE and exc_is(c.prog, v, ['ExtensionException']), world.pol.fn(op).loc(),
                  'an unknown extension name gives %s' % (v.name if k == RAISE else 'no error'))
            world.verify(s, frozenset(), 'unknown', op, hist)


def count_hook(s, start, name):
    return sum(1 for h in hook_events(s, start) if h[0] == name)


def failures(c):
    """set-up and tear-down functions, one of which may fail"""
    hooks = ['setup_E', 'teardown_E', 'setup_F', 'teardown_F']
    for fail in [()] + [(h,) for h in hooks] + [('setup_E', 'teardown_E')]:
        for own in subsets((0, 1)):
            for reg in ({'E': [(0, 'foo'), (1, 'foo')], 'F': [(0, 'bar')]}, {'E': [(1, 'foo')], 'F': [(0, 'foo')]}):
                pol, w, st = new(c, fail)
                world = World(c, w, pol, st, 2, [(i, 'foo') for i in own], reg)
                states = [(s, frozenset(), []) for s in world.register(hooks)]
                for op, ext in (('activate', 'F'), ('activate', 'E'), ('activate', 'E'), ('deactivate', 'E'), ('deactivate', 'E'), ('deactivate', 'F')):
                    fn = op + '_extension'
                    loc = pol.fn(fn).loc()
                    nxt = []
                    for s0, active, hist in states:
                        for k, v, s in pol.call(w, [s0], fn, Const(ext)):
                            c.count('operations')
                            h = hist + ['%s(%r)%s' % (fn, ext, ' fails' if k == RAISE else '')]
                            start = len(s0.trace)
                            nset, ntear = count_hook(s, start, 'setup_' + ext), count_hook(s, start, 'teardown_' + ext)
                            failed = [x[0] for x in hook_events(s, start) if x[3]]
                            noop = (ext in active) == (op == 'activate')
                            if op == 'activate':
                                c.obl('set-up-called', fn, nset == (0 if noop else 1), loc, 'the set-up function is called %d times' % nset, h)
                                c.obl('no-tear-down', fn, bool(failed) or ntear == 0, loc, 'the tear-down function is called on activation', h)
                            else:
                                c.obl('tear-down-called', fn, ntear == (0 if noop else 1), loc, 'the tear-down function is called %d times' % ntear, h)
                            c.obl('failure-reported', fn, (k == RAISE) == bool(failed) and (k != RAISE or v.name == 'HookError'), loc,
                                  'failing functions %s, but the call %s' % (failed, 'returns' if k == RETURN else 'raises %s' % v.name), h)
                            if op == 'activate':
                                now = active if k == RAISE else active | {ext}
                            else:
                                now = active - {ext}
                            world.verify(s, now, 'failure' if failed else op, fn, h)
                            nxt.append((s, now, h))
                    states = nxt
                c.visits(w)
                c.count('histories')


def managers(c):
    """context manager and decorator"""
    mgr = c.prog.find_class('mdp.extension.extension')
    reg = {'E': [(0, 'foo'), (1, 'foo')], 'F': [(1, 'bar')]}
    for fail in [(), ('setup_E',), ('setup_F',)]:
        for before in subsets(('E', 'F')):
            for names in (['E'], ['E', 'F'], ['F', 'E'], ['E', 'E'], 'E', []):
                for as_tuple in ((False, True) if isinstance(names, list) and len(names) == 2 else (False,)):
                    ext_manager(c, mgr, reg, fail, before, names, as_tuple)
    for fail in [(), ('setup_E',)]:
        for before in subsets(('E', 'F')):
            for raises in (False, True):
                decorator(c, reg, fail, before, raises)


def prepared(c, reg, fail, before):
    pol, w, st = new(c, fail)
    world = World(c, w, pol, st, 2, [(0, 'foo'), (1, 'bar')], reg)
    states = world.register(['setup_E', 'setup_F'])
    for e in before:
        states = [s for k, v, s in pol.call(w, states, 'activate_extension', Const(e)) if k == RETURN]
    return pol, w, world, states


def ext_manager(c, mgr, reg, fail, before, names, as_tuple):
    pol, w, world, states = prepared(c, reg, fail, before)
    c.count('histories')
    path = ['active before: %s' % list(before), 'with extension(%r)' % (names,)]
    for s in states:
        if isinstance(names, str):
            arg = Const(names)
        elif as_tuple:
            arg = Tup([Const(x) for x in names])
        else:
            arg = s.alloc(HList([Const(x) for x in names]))
        loc = mgr.module.relpath + ':%d' % mgr.node.lineno
        for ref, s1 in w.construct(mgr, [arg], {}, None, _ctx(pol), s):
            if isinstance(ref, Exc):
                c.obl('manager-enters', 'extension', False, loc, 'the constructor fails with %s' % ref.name, path)
                continue
            for k, v, s2 in w.run_method(s1, ref, '__enter__'):
                failed = [x for x in hook_events(s2, len(s1.trace)) if x[3]]
                if k == RAISE:
                    c.obl('manager-enters', 'extension', bool(failed), loc, '__enter__ fails with %s' % v.name, path)
                    # a failed activation of several extensions ends with consistent classes
                    for k3, v3, s3 in pol.call(w, [s2], 'get_active_extensions'):
                        act = frozenset(x.k[1] if not hasattr(x.k[1], '__len__') else x.k[1] for x in s3.obj(v3).items)
                    act = frozenset(e for e in 'EF' if any(show(x) == show(Const(e)) for x in s3.obj(v3).items))
                    c.obl('manager-failed-enter', 'extension', act <= frozenset(before), loc, 'after a failed enter %s is active, before it was %s' % (sorted(act), list(before)), path)
                    world.verify(s2, act, 'manager', 'activate_extensions', path)
                    continue
                want = frozenset(before) | frozenset([names] if isinstance(names, str) else names)
                world.verify(s2, want, 'manager-body', 'activate_extensions', path)
                for exc in (False, True):
                    a = [NONE, NONE, NONE] if not exc else [Tok('type'), Tok('value'), Tok('tb')]
                    for k4, v4, s4 in w.run_method(s2, ref, '__exit__', a):
                        c.obl('manager-exits', 'extension', k4 == RETURN, loc, '__exit__ fails with %s' % getattr(v4, 'name', ''), path)
                        if k4 == RETURN:
                            c.obl('manager-exception', 'extension', v4 in (NONE, Const(False)), loc, '__exit__ swallows the exception of the body', path)
                            world.verify(s4, frozenset(before), 'manager-exit', 'deactivate_extensions', path)
    c.visits(w)


def decorator(c, reg, fail, before, raises):
    pol, w, world, states = prepared(c, reg, fail, before)
    c.count('histories')
    if raises:
        pol.fail_hooks = pol.fail_hooks | {'body'}
    fn = pol.fn('with_extension')
    path = ['active before: %s' % list(before), "with_extension('E') on a function"]
    for s in states:
        for k, v, s1 in w.run_func(s, fn, [Const('E')]):
            for k, v, s2 in pol.call_value(w, s1, v, [Hook('body')]):
                c.obl('decorator', 'with_extension', k == RETURN, fn.loc(), 'the decorator fails', path)
                if k != RETURN:
                    continue
                world.verify(s2, frozenset(before), 'decorator-defined', 'with_extension', path)
                for k, v3, s3 in pol.call_value(w, s2, v, [Tok('arg')]):
                    hooks = hook_events(s3, len(s2.trace))
                    body = [h for h in hooks if h[0] == 'body']
                    bad = [h for h in hooks if h[3]]
                    c.obl('decorator-result', 'with_extension', (k == RAISE) == bool(bad), fn.loc(), 'the failure of the body or the set-up is lost or invented', path)
                    c.obl('decorator-call', 'with_extension', len(body) == (0 if any(h[0] != 'body' for h in bad) else 1) and
                          all(h[1] == (Tok('arg'),) for h in body), fn.loc(), 'the function is called %d times' % len(body), path)
                    if k == RETURN and body:
                        c.obl('decorator-result', 'with_extension', v3 == body[0][4].result, fn.loc(), 'the result of the function is not returned', path)
                    world.verify(s3, frozenset(before), 'decorator-exit', 'with_extension', path)
                    # while the body ran the extension was injected
                    for h in body:
                        c.obl('decorator-active', 'with_extension', injected(s3, h[4], world), fn.loc(), 'the extension is not active while the function runs', path)
    c.visits(w)


def injected(st, event, world):
    """stores and deletions on K0.foo before the event leave the value of E"""
    val = world.initial[0].get('foo')
    for e in st.trace:
        if e is event:
            break
        if e.kind == 'store' and e.base == world.refs[0] and e.name == 'foo':
            val = e.value
        elif e.kind == 'delattr' and e.base == world.refs[0] and e.name == 'foo':
            val = None
    return val == Tok('E_foo_K0')


class _ctx(object):
    def __init__(self, pol):
        self.fi = pol.fn('activate_extension')
        self.env = None


def classes(c):
    """registration by deriving from ExtensionNode"""
    meta = c.prog.find_class('mdp.extension.ExtensionNodeMetaclass')
    newm = c.prog.method(meta, '__new__')
    if newm is None:
        raise AnalysisError('ExtensionNodeMetaclass.__new__ not found')
    for own in subsets((0, 1)):
        for default in (True, False):
            for late in (False, True):
                pol, w, st = new(c)
                from sa.walker import ClassV
                st.notes['extnode'] = pol.new_class(st, 'ExtensionNode', (), {'extension_name': NONE}, meta)
                extnode = st.notes['extnode']
                k0 = pol.new_class(st, 'K0', (), {'foo': Tok('own_foo_K0')} if 0 in own else {})
                k1 = pol.new_class(st, 'K1', (k0,), {'foo': Tok('own_foo_K1')} if 1 in own else {})
                states = [st]

                def make(states, name, bases, members, expect=True):
                    out = []
                    for s, b in states:
                        s = s.copy()
                        d = s.alloc(__import__('sa.walker').walker.HDict([(Const(x), y) for x, y in members.items()]))
                        for k, v, s1 in w.run_func(s, newm, [ClassV(meta), Const(name), Tup([b[x] if isinstance(x, str) else x for x in bases]), d]):
                            c.count('operations')
                            if expect is True:
                                c.obl('class-defined', 'ExtensionNodeMetaclass', k == RETURN, newm.loc(), 'defining %s fails with %s' % (name, getattr(v, 'name', '')), trace_lines(s1)[-6:])
                                if k == RETURN:
                                    out.append((s1, dict(b, **{name: v})))
                            else:
                                c.obl('class-refused', 'ExtensionNodeMetaclass', k == RAISE and exc_is(c.prog, v, ['ExtensionException']), newm.loc(),
                                      'defining %s gives %s: %s' % (name, v.name if k == RAISE else 'no error', expect))
                                out.append((s1, b))
                    if not out:
                        raise AnalysisError('no state after defining %s' % name)
                    return out
                base = {'__doc__': Tok('doc'), '__module__': Tok('module')}
                cur = [(st, {'K0': k0, 'K1': k1, 'ExtensionNode': extnode})]
                te = dict(base, extension_name=Const('te'), foo=Tok('te_foo'), bar=Tok('te_bar'))
                cur = make(cur, 'TE', ['ExtensionNode', 'K0'] if default else ['ExtensionNode'], te)
                cur = make(cur, 'TE1', ['TE', 'K1'], dict(base, foo=Tok('te1_foo'), baz=Tok('te1_baz')))
                cur = make(cur, 'TF', ['ExtensionNode'], dict(base, extension_name=Const('te')), 'the name is taken')
                cur = make(cur, 'TG', ['ExtensionNode'], dict(base, extension_name=NONE), 'there is no name')
                for s, b in cur:
                    for k, v, s1 in pol.call(w, [s], 'activate_extension', Const('te')):
                        c.obl('class-activates', 'ExtensionNodeMetaclass', k == RETURN, newm.loc(), 'activation fails with %s' % getattr(v, 'name', ''), trace_lines(s1)[-6:])
                        if k != RETURN:
                            continue
                        want = [(k1, 'foo', Tok('te1_foo')), (k1, 'baz', Tok('te1_baz')), (k1, 'bar', Tok('te_bar')), (k0, 'baz', None)]
                        if default:
                            want += [(k0, 'foo', Tok('te_foo')), (k0, 'bar', Tok('te_bar'))]
                        else:
                            want += [(k0, 'foo', Tok('own_foo_K0') if 0 in own else None), (k0, 'bar', None)]
                        for r, a, x in want:
                            got = pol.find(s1, r, a)
                            c.obl('class-registered', 'ExtensionNodeMetaclass', got == x, newm.loc(), '%s.%s is %s, expected %s (extension base %s a node class)' % (
                                s1.obj(r).name, a, got and show(got), x and show(x), 'has' if default else 'has not'))
                        for r in (k0, k1):
                            for a in ('__doc__', '__module__', 'extension_name'):
                                c.obl('class-registered', 'ExtensionNodeMetaclass', pol.find(s1, r, a) is None, newm.loc(), '%s of the extension node is injected' % a)
                        for k2, v2, s2 in pol.call(w, [s1], 'deactivate_extension', Const('te')):
                            for i, r in enumerate((k0, k1)):
                                want = {'foo': Tok('own_foo_K%d' % i)} if i in own else {}
                                c.obl('class-removed', 'ExtensionNodeMetaclass', k2 == RETURN and s2.obj(r).fields == want, newm.loc(),
                                      'after deactivation %s has %s' % (s2.obj(r).name, sorted(s2.obj(r).fields)))
                c.visits(w)
                c.count('histories')
