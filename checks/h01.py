"""Layers: which columns every contained node gets and where its output goes."""
from sa.layers import LayerPolicy, SubNode, blocks, column_range, lin_sum
from sa.flowmodel import nodeops
from sa.proto import Tok, array, exc_is, trace_lines
from sa.walker import Const, cval, HList, NONE, RAISE, RETURN, Tup, Walker, lin_add, show

TITLE = 'Layers give each node its own columns and put the outputs next to each other'
RULES = ('The layer classes are built, trained, executed and inverted by abstract interpretation of their code and of the Node methods they inherit, with contained '
         'nodes of symbolic dimensions that only know the node contract. The symbolic column range every node receives, the range its output is '
         'written to, the training and closing calls of every phase and the dimensions and dtype of the layer are compared with the layer contract.')
ASSUMPTIONS = ['contained nodes obey the node contract (L01-L03)', 'two and three nodes stand for any number of nodes; their dimensions are arbitrary']

LAYER, SAME, CLONE = 'mdp.hinet.layer.Layer', 'mdp.hinet.layer.SameInputLayer', 'mdp.hinet.layer.CloneLayer'


class Run(object):
    def __init__(self, c, cls, specs, label):
        self.c, self.cls = c, cls
        self.specs = specs
        self.pol = LayerPolicy(c.prog, {'n%d' % i: s for i, s in enumerate(specs)})
        self.w = Walker(c.prog, self.pol)
        self.ci = c.prog.find_class(cls)
        self.label = '%s[%s]' % (self.ci.name, label)
        self.kind = {LAYER: 'layer', SAME: 'same', CLONE: 'clone'}[cls]
        self.loc0 = c.prog.method(self.ci, '__init__').loc()

    def build(self, dtype=None, n_clone=3):
        st = self.w.new_state()
        self.refs = self.pol.make(st, self.w)
        self.me = self.w.new_obj(st, self.ci, 'layer')
        if self.kind == 'clone':
            args = [self.refs[0], Const(n_clone)]
            self.idx = [0] * n_clone
        else:
            args = [st.alloc(HList(self.refs))]
            self.idx = list(range(len(self.refs)))
        r = self.w.run_method(st, self.me, '__init__', args, {} if dtype is None else {'dtype': dtype})
        self.ins = [Tok(self.specs[i].inp) if self.specs[i].inp else NONE for i in self.idx]
        self.outs = [Tok(self.specs[i].out) for i in self.idx]
        self.in_cols = self.ins[0] if self.kind == 'same' else lin_sum(self.ins)
        self.out_cols = lin_sum(self.outs)
        return r

    def ob(self, rule, ok, s, msg, sub=''):
        loc = self.loc0
        for e in reversed(s.trace):
            if e.kind in ('nodeop', 'call', 'store_item', 'branch', 'raised', 'store') and e.fi is not None:
                loc = e.loc()
                break
        return self.c.obl(rule, self.label + sub, ok, loc, msg, trace_lines(s, 0, 14) if not ok else None)

    def in_range(self, k):
        """columns of the k-th node on the input side"""
        if self.kind == 'same':
            return (Const(0), self.in_cols)
        lo = lin_sum(self.ins[:k])
        return lo, lin_add(lo, self.ins[k])

    def out_range(self, k):
        lo = lin_sum(self.outs[:k])
        return lo, lin_add(lo, self.outs[k])

    # -------------------------------------------------------------- phases
    def call(self, states, meth, args, kw=None, rule='works', sub=''):
        out = []
        for s in states:
            n0 = len(s.trace)
            for kind, v, s1 in self.w.run_method(s, self.me, meth, list(args), kw or {}):
                self.c.count('paths')
                if self.ob(rule, kind == RETURN, s1, '%s ends in %s' % (meth, v.name if kind == RAISE else ''), sub):
                    out.append((v, s1, n0))
        if not out:
            self.c.obl(rule, self.label + sub, False, self.loc0, '%s has no path that returns' % meth)
        return out

    def phases(self):
        return max(s.phases - s.done if False else s.phases for s in self.specs)

    def train(self, states, phase):
        for rnd in range(2):
            nxt = []
            for s in states:
                x = Tok('x%d%d' % (phase, rnd))
                array(s, x.k[1][1:], cols=self.in_cols)
                lab, opt = Tok('lab'), Tok('opt')
                todo = [k for k, i in enumerate(self.idx) if show(s.obj(self.refs[i]).fields['#phase']) != str(self.specs[i].phases)]
                for v, s1, n0 in self.call([s], 'train', [x, lab], {'opt': opt}, sub=':train%d' % phase):
                    evs = [e for e in nodeops(s1, n0) if e.op == 'train']
                    got = sorted((e.who, self.rng(s1, e.args[0], x, self.in_cols)) for e in evs)
                    want = sorted(('n%d' % self.idx[k], self.txt(self.in_range(k))) for k in todo)
                    self.ob('training-columns', got == want, s1, 'training phase %d: the nodes are trained on %s instead of %s' % (phase, got, want), ':phase%d' % phase)
                    ok = all(e.args[1:] == (lab,) and e.kwargs == (('opt', opt),) for e in evs)
                    self.ob('arguments-passed', ok, s1, 'a node is trained without the additional training arguments', ':phase%d' % phase)
                    nxt.append(s1)
            states = nxt
        nxt = []
        for s in states:
            todo = sorted({i for i in self.idx if show(s.obj(self.refs[i]).fields['#phase']) != str(self.specs[i].phases)})
            # only a second phase is closed with additional arguments (those of the nodes)
            a, kw = ([], {}) if phase == 0 else ([Tok('sarg')], {'sopt': Tok('sopt')})
            for v, s1, n0 in self.call([s], 'stop_training', a, kw, sub=':stop%d' % phase):
                got = sorted(e.who for e in nodeops(s1, n0) if e.op == 'stop')
                self.ob('arguments-passed', all(e.args == tuple(a) and e.kwargs == tuple(sorted(kw.items())) for e in nodeops(s1, n0) if e.op == 'stop'), s1,
                        'a node is closed without the additional arguments of stop_training', ':stop%d' % phase)
                self.ob('all-closed', got == ['n%d' % i for i in todo], s1, 'closing phase %d closes %s instead of %s' % (phase, got, ['n%d' % i for i in todo]), ':phase%d' % phase)
                nxt.append(s1)
        return nxt

    def txt(self, r):
        return '?' if r is None else '%s:%s' % (show(r[0]), show(r[1]))

    def rng(self, st, v, base, cols):
        return self.txt(column_range(v, base, cols))

    def attr(self, s, name):
        r = self.w.load_attr(self.me, name, None, _Ctx(self.c.prog.method(self.ci, '__init__')), s)
        return r[0][0]

    def value(self, s, meth):
        r = self.w.run_method(s, self.me, meth)
        return r[0][1]

    def transform(self, states, meth):
        """execute or inverse, compared with the blocks prescribed"""
        fwd = meth == 'execute'
        cin, cout = (self.in_cols, self.out_cols) if fwd else (self.out_cols, self.in_cols)
        rin, rout = (self.in_range, self.out_range) if fwd else (self.out_range, self.in_range)
        for s in states:
            x = array(s, 'x_' + meth, cols=cin)
            opt = Tok('opt')
            for v, s1, n0 in self.call([s], meth, [x], {'opt': opt}, sub=':' + meth):
                evs = [e for e in nodeops(s1, n0) if e.op == meth]
                self.ob('arguments-passed', all(e.kwargs == (('opt', opt),) or e.args[1:] == (opt,) for e in evs), s1,
                        'a node is called without the additional arguments of %s' % meth, ':' + meth)
                if self.kind == 'clone' and self.reshaped(v, x, fwd):
                    self.ob('block-columns', True, s1, '', ':' + meth)
                    continue
                bl = blocks(s1, v, cout, self.pol.size)
                got = None
                if bl is not None:
                    got = sorted((self.txt((lo, hi)), self.src(s1, y, meth, x, cin)) for lo, hi, y in bl)
                want = sorted((self.txt(rout(k)), ('n%d' % i, self.txt(rin(k)))) for k, i in enumerate(self.idx))
                self.ob('block-columns', got == want, s1, '%s writes the blocks %s instead of %s' % (meth, got, want), ':' + meth)
                shape = self.pol.size(v, s1)
                hc = ('hcat', v) in s1.notes
                self.ob('result-shape', hc or shape is not None and len(shape) == 2 and shape[1] == cout, s1, 'the result has %s columns instead of %s'
                        % (show(shape[1]) if shape and len(shape) > 1 else '?', show(cout)), ':' + meth)
                dt = s1.notes.get(('ovr', v, 'dtype'))
                self.ob('result-dtype', hc or dt == Tok('dy'), s1, 'the result is created without the dtype of the outputs', ':' + meth)

    def src(self, s, y, meth, x, cols):
        if y.tag == 'op' and y.k[1] == 'out' and y.k[3] == Const(meth):
            return (cval(y.k[2]), self.rng(s, y.k[4], x, cols))
        return (show(y), '?')

    def reshaped(self, v, x, fwd):
        """the samples of all clones are handled in one call"""
        cols = self.outs if fwd else self.ins
        ins = self.ins if fwd else self.outs
        if not (v.tag == 'op' and v.k[1] == 'reshape' and v.k[-1] == lin_sum(cols) and len(v.k) == 5):
            return False
        y = v.k[2]
        if not (y.tag == 'op' and y.k[1] == 'out' and y.k[3] == Const('execute' if fwd else 'inverse')):
            return False
        a = y.k[4]
        return a.tag == 'op' and a.k[1] == 'reshape' and a.k[2] == x and len(a.k) == 5 and a.k[-1] == ins[0]


class _Ctx(object):
    def __init__(self, fi):
        self.fi = fi


def life(c, cls, label, specs, n_clone=3):
    r = Run(c, cls, specs, label)
    states = []
    for kind, v, s in r.build(n_clone=n_clone):
        if r.ob('works', kind == RETURN, s, 'construction ends in %s' % (v.name if kind == RAISE else '')):
            states.append(s)
    late = any(sp.late for sp in specs)
    unknown = any(sp.late and sp.done == sp.phases for sp in specs)
    for s in states:
        r.ob('dimensions', r.attr(s, 'input_dim') == r.in_cols, s, 'input_dim is %s instead of %s' % (show(r.attr(s, 'input_dim')), show(r.in_cols)))
        want = NONE if late else r.out_cols
        r.ob('dimensions', r.attr(s, 'output_dim') == want, s, 'output_dim is %s instead of %s' % (show(r.attr(s, 'output_dim')), show(want)), ':output')
        tr = Const(any(sp.done < sp.phases for sp in specs))
        for m in ('is_trainable', 'is_training'):
            r.ob('training-state', r.value(s, m) == tr, s, '%s() is %s for nodes with %s' % (m, show(r.value(s, m)), label), ':' + m)
    if any(sp.done < sp.phases for sp in specs):
        for p in range(max(sp.phases for sp in specs if sp.done < sp.phases)):
            states = r.train(states, p)
        for s in states:
            r.ob('training-state', r.value(s, 'is_training') == Const(False), s, 'the layer is still in training after all its nodes have been trained', ':end')
            r.ob('dimensions', r.attr(s, 'output_dim') == r.out_cols or unknown and r.attr(s, 'output_dim') == NONE, s,
                 'output_dim is %s after the training instead of %s' % (show(r.attr(s, 'output_dim')), show(r.out_cols)), ':trained')
    for s in states:
        s.trace = ()
    r.transform([s.copy() for s in states], 'execute')
    if r.kind != 'same':
        if all(sp.invertible for sp in specs):
            if late:
                states = [s1 for s in states for v, s1, n in r.call([s], 'execute', [array(s, 'x_dims', cols=r.in_cols)])]
                for s in states:
                    s.trace = ()
            for s in states:
                r.ob('invertible', r.value(s, 'is_invertible') == Const(True), s, 'a layer of invertible nodes says it is not invertible')
            r.transform(states, 'inverse')
        else:
            refuse_inverse(r, states)
    else:
        refuse_inverse(r, states)
    c.visits(r.w)
    c.count('layers')


def refuse_inverse(r, states):
    for s in states:
        r.ob('invertible', r.value(s, 'is_invertible') == Const(False), s, 'a layer with a node that is not invertible says it is invertible')
        y = array(s, 'y_inverse', cols=r.out_cols)
        for kind, v, s1 in r.w.run_method(s, r.me, 'inverse', [y]):
            r.ob('invertible', kind == RAISE and exc_is(r.c.prog, v, ['IsNotInvertibleException']), s1, 'inverse of a layer that is not invertible ends in %s'
                 % (v.name if kind == RAISE else 'a normal return'), ':inverse')


def refused(c, cls, label, specs, dtype=None, **kw):
    r = Run(c, cls, specs, label)
    for kind, v, s in r.build(dtype, **kw):
        r.ob('inconsistent-refused', kind == RAISE and exc_is(c.prog, v, ['NodeException']), s, 'construction with %s ends in %s'
             % (label, v.name if kind == RAISE else 'a normal return'))
    c.visits(r.w)


def dtypes(c, cls, label, specs, dtype, want):
    """the dtype given (or that of a node) becomes the dtype of the layer and of all nodes"""
    r = Run(c, cls, specs, label)
    for kind, v, s in r.build(dtype):
        if not r.ob('works', kind == RETURN, s, 'construction ends in %s' % (v.name if kind == RAISE else '')):
            continue
        r.ob('dtype', r.attr(s, 'dtype') == want, s, 'the dtype of the layer is %s instead of %s' % (show(r.attr(s, 'dtype')), show(want)))
        got = [s.obj(x).fields['_dtype'] for x in r.refs]
        r.ob('dtype', all(g == want for g in got), s, 'the dtypes of the nodes are %s instead of %s' % ([show(g) for g in got], show(want)), ':nodes')
    c.visits(r.w)


def supported(c, cls, label, specs, want):
    """a layer supports the dtypes that all its nodes support"""
    r = Run(c, cls, specs, label)
    for kind, v, s in r.build():
        for kind, v, s1 in r.w.run_method(s, r.me, 'get_supported_dtypes'):
            got = r.pol.items(s1, v) if kind == RETURN else None
            r.ob('dtype', got is not None and sorted(map(show, got)) == sorted('@' + x for x in want), s1, 'get_supported_dtypes gives %s instead of %s'
                 % (None if got is None else [show(x) for x in got], list(want)), ':supported')


def run(c):
    def mk(same, *kinds):
        out = []
        for i, k in enumerate(kinds):
            kw = {'inp': 'd0' if same else 'd%d' % i, 'out': 'e%d' % i}
            kw.update(k)
            out.append(SubNode(**kw))
        return out
    fixed, latef = {}, {'late': True}
    one, two, done, half = {'phases': 1}, {'phases': 2}, {'phases': 1, 'done': 1}, {'phases': 2, 'done': 1}
    lone = {'phases': 1, 'late': True}
    noinv = {'invertible': False}
    for cls in (LAYER, SAME):
        same = cls == SAME
        for label, kinds in (('fixed,fixed', (fixed, fixed)), ('late,fixed,late', (latef, fixed, latef)), ('one,one,one', (one, one, one)),
                             ('one,two,fixed', (one, two, fixed)), ('two,done,one', (two, done, one)), ('lateone,two', (lone, two)),
                             ('done,done', (done, done)), ('fixed,noinv', (fixed, noinv)), ('noinv,fixed,one', (noinv, fixed, one)),
                             ('half,half', (half, half)), ('one', (one,))):
            life(c, cls, label, mk(same, *kinds))
        refused(c, cls, 'a node without input_dim', mk(same, fixed, {'inp': None}))
        if same:
            refused(c, cls, 'different input dimensions', mk(False, fixed, fixed))
            refused(c, cls, 'a last node of different input dimension', [SubNode('d0', 'e0'), SubNode('d0', 'e1'), SubNode('d1', 'e2')])
        refused(c, cls, 'nodes of different dtypes', mk(same, {'dtype': 'f'}, {'dtype': 'd'}))
        refused(c, cls, 'a dtype other than that of a node', mk(same, fixed, {'dtype': 'f'}), Tok('d'))
        refused(c, cls, 'a dtype one node does not support', mk(same, fixed, {'supported': ('f',)}), Tok('d'))
        dtypes(c, cls, 'dtype given', mk(same, fixed, fixed), Tok('d'), Tok('d'))
        supported(c, cls, 'supported dtypes', mk(same, {'supported': ('f', 'd')}, {'supported': ('d', 'i')}), ('d',))
        dtypes(c, cls, 'dtype of one node', mk(same, fixed, {'dtype': 'd'}, fixed), None, Tok('d'))
    for label, kinds in (('fixed', (fixed,)), ('late', (latef,)), ('one', (one,)), ('two', (two,)), ('lateone', (lone,)), ('done', (done,)), ('noinv', (noinv,))):
        life(c, CLONE, label, mk(False, *kinds))
    life(c, CLONE, 'one,n_nodes=1', mk(False, one), 1)
    dtypes(c, CLONE, 'dtype given', mk(False, fixed), Tok('d'), Tok('d'))
    c.need('layers', 20)
    c.need('paths', 100)
