"""FlowNode: a flow inside a node trains, executes and inverts like the flow."""
from sa.layers import LayerPolicy, SubNode
from sa.flowmodel import nodeops
from sa.proto import Tok, array, exc_is, trace_lines
from sa.walker import (ClassV, Const, Exc, HList, HObj, NONE, RAISE, RETURN, Walker, cval, is_const, show)

TITLE = 'A FlowNode trains, executes, inverts and copies exactly like its flow'
RULES = ('FlowNode is built around a Flow of contract nodes and driven through all its training phases, execution, inversion, setting of dimensions and copying by '
         'abstract interpretation of FlowNode, Flow and Node. The sequence of node calls with the provenance of their data is compared with that of the flow; '
         'a copy must own copies of all nodes and leave the original as it was, also when copying a node fails.')
ASSUMPTIONS = ['contained nodes obey the node contract (L01-L03)', 'one to three nodes with zero to two phases, partly trained before or not']
FN = 'mdp.hinet.flownode.FlowNode'


class FlowPolicy(LayerPolicy):
    copy_fails = None

    def node_call(self, w, nm, ref, meth, args, kw, n, fi, st):
        if meth == 'copy' and nm == self.copy_fails:
            return [(Exc('HookError', Tok('copy failed'), n, fi), st)]
        return LayerPolicy.node_call(self, w, nm, ref, meth, args, kw, n, fi, st)


class Run(object):
    def __init__(self, c, specs, label):
        self.c, self.specs = c, specs
        self.pol = FlowPolicy(c.prog, {'n%d' % i: s for i, s in enumerate(specs)})
        self.w = Walker(c.prog, self.pol)
        self.ci = c.prog.find_class(FN)
        self.label = 'FlowNode[%s]' % label
        self.loc0 = c.prog.method(self.ci, '__init__').loc()

    def build(self, kw=None):
        st = self.w.new_state()
        self.refs = self.pol.make(st, self.w)
        fci = self.c.prog.find_class('mdp.linear_flows.Flow')
        self.flow = self.w.new_obj(st, fci, 'flow')
        out = []
        for k, v, s in self.w.run_method(st, self.flow, '__init__', [st.alloc(HList(self.refs))]):
            if k == RAISE:
                continue
            self.me = self.w.new_obj(s, self.ci, 'flownode')
            s.trace = ()
            out.extend(self.w.run_method(s, self.me, '__init__', [self.flow], kw or {}))
        return out

    def ob(self, rule, ok, s, msg, sub=''):
        loc = self.loc0
        for e in reversed(s.trace):
            if e.kind in ('nodeop', 'call', 'branch', 'raised', 'store', 'enter') and e.fi is not None:
                loc = e.loc()
                break
        return self.c.obl(rule, self.label + sub, ok, loc, msg, trace_lines(s, 0, 14) if not ok else None)

    def call(self, s, meth, args=(), kw=None, sub=''):
        n0 = len(s.trace)
        out = []
        for kind, v, s1 in self.w.run_method(s, self.me, meth, list(args), kw or {}):
            self.c.count('paths')
            if self.ob('works', kind == RETURN, s1, '%s ends in %s' % (meth, v.name if kind == RAISE else ''), sub or ':' + meth):
                out.append((v, s1, n0))
        return out

    def value(self, s, meth):
        return self.w.run_method(s, self.me, meth)[0][1]

    def attr(self, s, name, ref=None):
        return self.w.load_attr(ref or self.me, name, None, _Ctx(self.c.prog.method(self.ci, '__init__')), s)[0][0]


class _Ctx(object):
    def __init__(self, fi):
        self.fi = fi


def prov(v):
    if v.tag == 'op' and v.k[1] == 'out':
        return '%s%s(%s)' % (cval(v.k[2]), '' if v.k[3] == Const('execute') else '^-1', prov(v.k[4]))
    return show(v)


def chain(x, k):
    for i in range(k):
        x = 'n%d(%s)' % (i, x)
    return x


def life(c, label, specs):
    r = Run(c, specs, label)
    states = []
    for kind, v, s in r.build():
        if r.ob('works', kind == RETURN, s, 'construction ends in %s' % (v.name if kind == RAISE else '')):
            states.append(s)
    todo = [(i, p) for i, sp in enumerate(specs) for p in range(sp.done, sp.phases)]
    last = specs[-1]
    din, dout = specs[0].inp, None if last.late else last.out
    for s in states:
        r.ob('dimensions', r.attr(s, 'input_dim') == (Tok(din) if din else NONE), s, 'input_dim is %s' % show(r.attr(s, 'input_dim')), ':input')
        r.ob('dimensions', r.attr(s, 'output_dim') == (Tok(dout) if dout else NONE), s, 'output_dim is %s' % show(r.attr(s, 'output_dim')), ':output')
        for m in ('is_trainable', 'is_training'):
            r.ob('training-state', r.value(s, m) == Const(bool(todo)), s, '%s() is %s' % (m, show(r.value(s, m))), ':' + m)
        r.ob('training-state', r.value(s, 'get_remaining_train_phase') == Const(len(todo)), s, '%s phases remain instead of %d'
             % (show(r.value(s, 'get_remaining_train_phase')), len(todo)), ':remaining')
    for ph, (i, p) in enumerate(todo):
        for rnd in range(2):
            nxt = []
            for s in states:
                x, lab = array(s, 'x%d%d' % (ph, rnd), cols=Tok(din or 'd0')), Tok('lab')
                for v, s1, n0 in r.call(s, 'train', [x, lab], {'opt': Tok('opt')}, ':train%d' % ph):
                    evs = [e for e in nodeops(s1, n0) if e.op in ('train', 'stop')]
                    got = [(e.op, e.who, e.phase, prov(e.args[0])) for e in evs]
                    want = [('train', 'n%d' % i, p, chain(show(x), i))]
                    r.ob('training-steps', got == want, s1, 'phase %d does %s instead of %s' % (ph, got, want), ':phase%d' % ph)
                    r.ob('arguments-passed', all(e.args[1:] == (lab,) and e.kwargs == (('opt', Tok('opt')),) for e in evs), s1,
                         'the node is trained without the additional arguments', ':phase%d' % ph)
                    nxt.append(s1)
            states = nxt
        nxt = []
        for s in states:
            for v, s1, n0 in r.call(s, 'stop_training', [], None, ':stop%d' % ph):
                got = [(e.who, e.phase) for e in nodeops(s1, n0) if e.op == 'stop']
                r.ob('closing-steps', got == [('n%d' % i, p)], s1, 'closing phase %d closes %s instead of %s' % (ph, got, ('n%d' % i, p)), ':phase%d' % ph)
                r.ob('training-state', r.value(s1, 'is_training') == Const(ph + 1 < len(todo)), s1, 'is_training() is %s after %d of %d phases'
                     % (show(r.value(s1, 'is_training')), ph + 1, len(todo)), ':after%d' % ph)
                nxt.append(s1)
        states = nxt
    n = len(specs)
    for s in states:
        if todo:
            want = NONE if last.late and last.phases == last.done else Tok(last.out)
            if not (last.late and last.phases == last.done):
                r.ob('dimensions', r.attr(s, 'output_dim') == want, s, 'output_dim is %s after the training instead of %s' % (show(r.attr(s, 'output_dim')), show(want)), ':trained')
        s.trace = ()
        x = array(s, 'xe', cols=Tok(din or 'd0'))
        for v, s1, n0 in r.call(s, 'execute', [x]):
            r.ob('composition', prov(v) == chain(show(x), n), s1, 'execute gives %s instead of %s' % (prov(v), chain(show(x), n)))
            inv = all(sp.invertible for sp in specs)
            r.ob('invertible', r.value(s1, 'is_invertible') == Const(inv), s1, 'is_invertible() is %s' % show(r.value(s1, 'is_invertible')))
            if not inv:
                for kind, e, s2 in r.w.run_method(s1, r.me, 'inverse', [array(s1, 'yi', cols=Tok(last.out))]):
                    r.ob('invertible', kind == RAISE and exc_is(c.prog, e, ['IsNotInvertibleException']), s2, 'inverse of a flow that is not invertible ends in %s'
                         % (e.name if kind == RAISE else 'a normal return'), ':inverse')
                continue
            y = array(s1, 'yi', cols=Tok(last.out))
            want = show(y)
            for i in range(n - 1, -1, -1):
                want = 'n%d^-1(%s)' % (i, want)
            for v2, s2, n1 in r.call(s1, 'inverse', [y]):
                r.ob('composition', prov(v2) == want, s2, 'inverse gives %s instead of %s' % (prov(v2), want), ':inverse')
    c.visits(r.w)
    c.count('flow nodes')


def copying(c, label, specs, fails=None):
    r = Run(c, specs, label)
    for kind, v, s in r.build():
        if kind == RAISE:
            continue
        s.trace = ()
        r.pol.copy_fails = fails
        r.pol.copying_fails = fails == 'deepcopy'
        for kind, v, s1 in r.w.run_method(s, r.me, 'copy'):
            c.count('paths')
            if fails is None:
                r.ob('works', kind == RETURN, s1, 'copy ends in %s' % (v.name if kind == RAISE else ''), ':copy')
            lst = s1.obj(s1.obj(r.flow).fields['flow'])
            ok = isinstance(lst, HList) and lst.kind == 'list' and list(lst.items) == r.refs and s1.obj(r.me).fields.get('_flow') == r.flow
            r.ob('copy-original', ok, s1, 'after %s the flow of the original has %s instead of its list of nodes'
                 % ('a failing copy' if fails else 'copy', show(s1.obj(r.flow).fields['flow']) if not isinstance(lst, HList) else 'other nodes'), ':' + (fails or 'copy'))
            if kind == RETURN and fails is None:
                o = s1.obj(v)
                fr = o.fields.get('_flow') if isinstance(o, HObj) else None
                f2 = s1.obj(fr) if fr is not None else None
                l2 = s1.obj(f2.fields['flow']) if isinstance(f2, HObj) else None
                ok = fr != r.flow and isinstance(l2, HList) and l2.kind == 'list' and len(l2.items) == len(r.refs) and not set(l2.items) & set(r.refs) \
                    and [getattr(s1.obj(x), 'name', None) for x in l2.items] == ['n%d' % i for i in range(len(specs))]
                r.ob('copy-own-nodes', ok, s1, 'the copy does not have a list with a copy of each node')
    c.visits(r.w)


def dims(c):
    """dimensions given to the FlowNode reach the first and the last node"""
    r = Run(c, [SubNode(None, 'e0', late=True), SubNode('e0', 'e1', late=True)], 'dimensions')
    for kind, v, s in r.build():
        for e, s1 in r.w.store_attr(r.me, 'input_dim', Tok('k'), r.ci.node, _Ctx(c.prog.method(r.ci, '__init__')), s):
            r.ob('dimension-set', not isinstance(e, Exc) and s1.obj(r.refs[0]).fields['_input_dim'] == Tok('k') and r.attr(s1, 'input_dim') == Tok('k'), s1,
                 'setting input_dim does not reach the first node', ':input')
        for e, s1 in r.w.store_attr(r.me, 'output_dim', Tok('m'), r.ci.node, _Ctx(c.prog.method(r.ci, '__init__')), s):
            r.ob('dimension-set', not isinstance(e, Exc) and s1.obj(r.refs[1]).fields['_output_dim'] == Tok('m') and r.attr(s1, 'output_dim') == Tok('m'), s1,
                 'setting output_dim does not reach the last node', ':output')
    r = Run(c, [SubNode('d0', 'e0'), SubNode('e0', 'e1')], 'fixed dimensions')
    for kind, v, s in r.build():
        for e, s1 in r.w.store_attr(r.me, 'output_dim', Tok('m'), r.ci.node, _Ctx(c.prog.method(r.ci, '__init__')), s):
            r.ob('dimension-refused', isinstance(e, Exc) and exc_is(c.prog, e, ['InconsistentDimException']), s1, 'another output_dim than that of the last node is accepted')
        for e, s1 in r.w.store_attr(r.me, 'input_dim', Tok('m'), r.ci.node, _Ctx(c.prog.method(r.ci, '__init__')), s):
            r.ob('dimension-refused', isinstance(e, Exc) and exc_is(c.prog, e, ['InconsistentDimException']), s1, 'another input_dim than that of the first node is accepted', ':input')
    for nm, sp in (('input_dim', 'd0'), ('output_dim', 'e1')):
        r = Run(c, [SubNode('d0', 'e0'), SubNode('e0', 'e1')], 'given ' + nm)
        for kind, v, s in r.build({nm: Tok('m')}):
            r.ob('dimension-refused', kind == RAISE and exc_is(c.prog, v, ['InconsistentDimException', 'NodeException']), s, 'a %s other than that of the flow is accepted' % nm)
    r = Run(c, [SubNode(None, 'e0', late=True, follows=True), SubNode('f0', 'e1')], 'inner conflict')
    for kind, v, s in r.build():
        for e, s1 in r.w.store_attr(r.me, 'input_dim', Tok('k'), r.ci.node, _Ctx(c.prog.method(r.ci, '__init__')), s):
            r.ob('dimension-refused', isinstance(e, Exc), s1, 'an input_dim that makes the nodes inside incompatible is accepted')
    r = Run(c, [SubNode('d0', 'e0'), SubNode('e0', 'e1', dtype='f')], 'other dtype')
    for kind, v, s in r.build({'dtype': Tok('d')}):
        r.ob('dtype', kind == RAISE and exc_is(c.prog, v, ['NodeException']), s, 'a dtype other than that of a node is accepted')
    r = Run(c, [SubNode('d0', 'e0', supported=('f', 'd')), SubNode('e0', 'e1', supported=('d', 'i'))], 'supported dtypes')
    for kind, v, s in r.build():
        for kind, v, s1 in r.w.run_method(s, r.me, 'get_supported_dtypes'):
            got = r.pol.items(s1, v) if kind == RETURN else None
            r.ob('dtype', got == [Tok('d')], s1, 'get_supported_dtypes gives %s' % (None if got is None else [show(x) for x in got]))
    r = Run(c, [SubNode('d0', 'e0'), SubNode('e0', 'e1')], 'dtype')
    for kind, v, s in r.build({'dtype': Tok('d')}):
        got = [s.obj(x).fields['_dtype'] for x in r.refs]
        r.ob('dtype', kind == RETURN and got == [Tok('d')] * 2 and r.attr(s, 'dtype') == Tok('d'), s, 'the dtype given does not reach all nodes')
    c.visits(r.w)


def filling(c, label, specs):
    """inner dimensions that are not known are those of the node in front, and the last one is that of the FlowNode"""
    r = Run(c, specs, label)
    todo = [(i, p) for i, sp in enumerate(specs) for p in range(sp.phases)]
    states = [s for kind, v, s in r.build() if r.ob('works', kind == RETURN, s, 'construction ends in %s' % (v.name if kind == RAISE else ''))]
    for i, p in todo:
        for meth, args in (('train', True), ('stop_training', False)):
            nxt = []
            for s in states:
                nxt += [s1 for v, s1, n0 in r.call(s, meth, [array(s, 'x%d%d' % (i, p), cols=Tok('d0'))] if args else [])]
            states = nxt
    for s in states:
        for i, x in enumerate(r.refs):
            want = Tok(specs[i - 1].out if i else 'd0')
            got = s.obj(x).fields['_input_dim']
            r.ob('dimensions', got == want, s, 'the input dimension of node %d is %s instead of %s after the training' % (i, show(got), show(want)), ':inner')
        r.ob('dimensions', r.attr(s, 'output_dim') == Tok(specs[-1].out), s, 'output_dim is %s instead of %s after the training' % (show(r.attr(s, 'output_dim')), specs[-1].out), ':filled')
    c.visits(r.w)
    c.count('flow nodes')


def run(c):
    F, O, T = dict(), dict(phases=1), dict(phases=2)
    D, H = dict(phases=1, done=1), dict(phases=2, done=1)
    LO, LF, NI = dict(phases=1, late=True), dict(late=True), dict(invertible=False)

    def mk(*kinds):
        out = []
        for i, k in enumerate(kinds):
            kw = {'inp': 'd0' if i == 0 else 'e%d' % (i - 1), 'out': 'e%d' % i}
            kw.update(k)
            out.append(SubNode(**kw))
        return out
    for label, kinds in (('one', (O,)), ('fixed', (F,)), ('fixed,one', (F, O)), ('one,two', (O, T)), ('two,fixed', (T, F)), ('done,one', (D, O)),
                         ('half,one', (H, O)), ('one,half', (O, H)), ('half', (H,)), ('one,one,one', (O, O, O)), ('fixed,two,fixed', (F, T, F)), ('two,done,half', (T, D, H)),
                         ('done,done', (D, D)), ('fixed,fixed,fixed', (F, F, F)), ('one,noinv', (O, NI)), ('noinv,fixed', (NI, F)),
                         ('lateone', (LO,)), ('one,lateone', (O, LO)), ('late', (dict(LF, out='d0'),)), ('fixed,late', (F, dict(LF, out='e0')))):
        life(c, label, mk(*kinds))
    # unknown inner dimensions are filled in
    life(c, 'one,lateone,unknown dims', [SubNode(None, 'e0', phases=1, late=True), SubNode(None, 'e1', phases=1, late=True)])
    U = dict(late=True, follows=True)
    filling(c, 'one,unknown', [SubNode('d0', 'e0', phases=1), SubNode(None, 'e1', **U)])
    filling(c, 'lateone,unknown', [SubNode('d0', 'e0', phases=1, late=True), SubNode(None, 'e1', **U)])
    filling(c, 'one,fixed,unknown', [SubNode('d0', 'e0', phases=1), SubNode('e0', 'e1'), SubNode(None, 'e2', **U)])
    filling(c, 'one,unknown,unknown', [SubNode('d0', 'e0', phases=1), SubNode(None, 'e1', **U), SubNode(None, 'e2', **U)])
    copying(c, 'one,two', mk(O, T))
    copying(c, 'fixed', mk(F))
    copying(c, 'fixed,fixed', mk(F, F), 'n1')
    copying(c, 'fixed,one', mk(F, O), 'deepcopy')
    dims(c)
    c.need('flow nodes', 15)
    c.need('paths', 40)
