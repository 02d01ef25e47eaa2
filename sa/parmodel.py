"""Contract model of the parts a parallel flow drives: the flow node that is forked and
joined, the task callables (real code) and the scheduler (S01-S03).

The flow node collects which data chunks reached it, directly or through joined forks,
so that the data a training phase was closed with can be compared with the data given.
"""
from .flowmodel import NodeModelPolicy, NodeSpec, text
from .flowmodel import _Ctx
from .proto import Tok, hook_name, is_tok
from .walker import (Const, Exc, FALSE, HDict, HList, HObj, NONE, Op, RAISE, RETURN, TRUE, Tup, V, Walker, cval, is_const, show)

FLOWNODE = 'mdp.hinet.flownode.FlowNode'
NOTFORK = 'mdp.parallel.parallelnodes.NotForkableParallelException'


class ParSpec(NodeSpec):
    def __init__(self, phases=0, done=0, req=0, forkable=True, exec_fork=False, **kw):
        NodeSpec.__init__(self, phases, done, req, **kw)
        self.forkable = forkable if isinstance(forkable, (tuple, set)) else (set(range(9)) if forkable else set())
        self.exec_fork = exec_fork


class ParPolicy(NodeModelPolicy):
    max_depth = 24
    while_bound = 12
    max_paths = 40000
    fail_ops = ()
    late = False            # tasks are run when the results are collected, last one first
    max_fails = 1
    scheds = ()

    # -------------------------------------------------------------- lookup
    def is_fn(self, st, v):
        o = st.obj(v) if v is not None else None
        return isinstance(o, HObj) and '#acc' in o.fields

    def is_sched(self, st, v):
        o = st.obj(v) if v is not None else None
        return isinstance(o, HObj) and '#sched' in o.fields

    def load_field(self, w, ref, o, name, st):
        if o.name in self.nodes and name == '_train_phase_started':
            return o.fields['#started']
        return NodeModelPolicy.load_field(self, w, ref, o, name, st)

    FN = ('train', 'stop_training', 'fork', 'join', 'execute', 'use_execute_fork', 'is_training', 'is_trainable', 'bi_reset',
          '_fork', '_join', 'copy', '__call__')

    def load_method(self, w, ref, o, name, st):
        if '#acc' in o.fields and name in self.FN:
            return Op('modelmethod', ref, Const(name))
        if '#sched' in o.fields and name in ('add_task', 'get_results', 'shutdown'):
            return Op('modelmethod', ref, Const(name))
        if o.name in self.nodes and name in ('use_execute_fork', 'fork', 'join'):
            return Op('modelmethod', ref, Const(name))
        return NodeModelPolicy.load_method(self, w, ref, o, name, st)

    # ----------------------------------------------------------- intercept
    def intercept(self, w, f, args, kw, n, fi, st):
        if f.tag == 'class' and self.prog.is_subclass(f.k[1], self.prog.find_class(FLOWNODE)):
            s = st.copy()
            k = s.notes.get('flownodes', 0)
            s.notes['flownodes'] = k + 1
            ref = w.new_obj(s, f.k[1], 'flownode%d' % k, {'_flow': args[0] if args else kw.get('flow', NONE), '#acc': Tup([]),
                                                          '#fork': FALSE, '#joined': Tup([]), '#node': NONE, '#phase': NONE})
            s.add_event('par', n, fi, op='flownode', ref=ref)
            return [(ref, s)]
        if f.tag == 'func' and f.k[1].name in ('get_active_extensions',):
            return [(Tok('extensions'), st)]
        if f.tag == 'op' and f.k[1] == 'modelmethod':
            ref, name = f.k[2], cval(f.k[3])
            if self.is_fn(st, ref):
                return self.fn_call(w, ref, name, args, kw, n, fi, st)
            if self.is_sched(st, ref):
                return self.sched_call(w, ref, name, args, kw, n, fi, st)
            nm = self.model(st, ref)
            if name == 'use_execute_fork':
                return [(Const(self.nodes[nm].exec_fork), st)]
            if name == 'fork':
                if cval(st.obj(ref).fields['#phase']) not in self.nodes[nm].forkable:
                    return [(self.exc(NOTFORK, n, fi), st)]
                return [(Tok('fork(%s)' % nm), st)]
        if f.tag == 'func' and f.k[3] is not None and self.is_fn(st, f.k[3]) and f.k[1].name in self.FN:
            return self.fn_call(w, f.k[3], f.k[1].name, args, kw, n, fi, st)
        if f.tag == 'ext' and f.k[1] == 'numpy.concatenate' and args:
            o = st.obj(args[0])
            if isinstance(o, HList) and not o.items:
                return [(Exc('ValueError', None, n, fi), st)]
        return NodeModelPolicy.intercept(self, w, f, args, kw, n, fi, st)

    # ----------------------------------------------------------- flow node
    def ev2(self, st, n, fi, op, **kw):
        s = st.copy()
        s.add_event('par', n, fi, op=op, **dict({'failed': False}, **kw))
        return s

    def fail2(self, st, n, fi, op, what, **kw):
        if op not in self.fail_ops or st.notes.get('fails', 0) >= self.max_fails:
            return []
        s = self.ev2(st, n, fi, op, **dict(kw, failed=True))
        s.notes['fails'] = s.notes.get('fails', 0) + 1
        return [(Exc('HookError', Tok('failure of ' + what), n, fi, origin=Tok(what)), s)]

    def current(self, st):
        """(name, ref, phase) of the node in training"""
        for nm in sorted(self.nodes):
            ref = st.notes['noderefs'][nm]
            p = cval(st.obj(ref).fields['#phase'])
            if p < self.nodes[nm].phases:
                return nm, ref, p
        return None, None, None

    def flow_copy(self, w, st, ref):
        """a flow object of its own for a fork"""
        o = st.obj(ref)
        fl = o.fields['_flow']
        fo = st.obj(fl)
        if not isinstance(fo, HObj) or 'flow' not in fo.fields or not isinstance(st.obj(fo.fields['flow']), HList):
            return fl
        lst = st.alloc(HList(st.obj(fo.fields['flow']).items))
        return w.new_obj(st, fo.cls, 'forkflow', dict(fo.fields, flow=lst))

    def fn_call(self, w, ref, name, args, kw, n, fi, st):
        o = st.obj(ref)
        fork = o.fields['#fork'] == TRUE
        nm, nref, p = self.current(st)
        if name in ('use_execute_fork',):
            return [(Const(any(s.exec_fork for s in self.nodes.values())), st)]
        if name in ('is_training', 'is_trainable'):
            return [(Const(nm is not None), st)]
        if name == 'bi_reset':
            return [(NONE, self.ev2(st, n, fi, 'bi_reset', fn=ref, fork=fork))]
        if name == 'fork':
            if nm is not None and p not in self.nodes[nm].forkable:
                return [(self.exc(NOTFORK, n, fi), self.ev2(st, n, fi, 'nofork', fn=ref))]
            s = st.copy()
            k = s.notes.get('forks', 0)
            s.notes['forks'] = k + 1
            new = w.new_obj(s, o.cls, 'fork%d' % k, {'_flow': self.flow_copy(w, s, ref), '#acc': Tup([]), '#fork': TRUE, '#joined': Tup([]),
                                                     '#node': Const(nm), '#phase': Const(p)})
            s.add_event('par', n, fi, op='fork', fn=ref, new=new, failed=False)
            return [(new, s)] + self.fail2(st, n, fi, 'fork', 'fork')
        if name == 'train':
            if fork:
                nm, p = cval(o.fields['#node']), cval(o.fields['#phase'])
            if nm is None:
                return [(self.exc('mdp.signal_node.TrainingFinishedException', n, fi), self.ev2(st, n, fi, 'badtrain', fn=ref))]
            s = self.ev2(st, n, fi, 'train', fn=ref, fork=fork, who=nm, phase=p, args=tuple(args), kwargs=tuple(sorted(kw.items())))
            m = s.mut(ref)
            m.fields['#acc'] = Tup(m.fields['#acc'].k[1:] + (Tup(tuple(args) + tuple(v for _, v in sorted(kw.items()))),))
            if not fork:
                s.mut(nref).fields['#started'] = TRUE
            return [(self.train_result(s), s)] + self.fail2(st, n, fi, 'train', '%s.train' % nm, fn=ref, fork=fork, who=nm, phase=p)
        if name == 'join':
            other = args[0]
            if not self.is_fn(st, other):
                return [(Exc('AttributeError', None, n, fi, origin=other), self.ev2(st, n, fi, 'badjoin', fn=ref, other=other))]
            s = self.ev2(st, n, fi, 'join', fn=ref, other=other)
            oo = s.obj(other)
            m = s.mut(ref)
            m.fields['#acc'] = Tup(m.fields['#acc'].k[1:] + oo.fields['#acc'].k[1:])
            m.fields['#joined'] = Tup(m.fields['#joined'].k[1:] + (other,) + oo.fields['#joined'].k[1:])
            if nref is not None and not fork and m.fields['#acc'].k[1:]:
                s.mut(nref).fields['#started'] = TRUE
            return [(NONE, s)] + self.fail2(st, n, fi, 'join', 'join', fn=ref)
        if name == 'stop_training':
            acc = o.fields['#acc'].k[1:]
            if nm is None or fork:
                return [(self.exc('mdp.signal_node.TrainingFinishedException', n, fi), self.ev2(st, n, fi, 'badstop', fn=ref, who=nm))]
            if not acc:
                return [(self.exc('mdp.signal_node.TrainingException', n, fi), self.ev2(st, n, fi, 'badstop', fn=ref, who=nm))]
            s = self.ev2(st, n, fi, 'stop', fn=ref, who=nm, phase=p, acc=acc, args=tuple(args))
            s.mut(ref).fields['#acc'] = Tup([])
            m = s.mut(nref)
            m.fields['#phase'] = Const(p + 1)
            m.fields['#started'] = FALSE
            return [(self.stop_result(s), s)] + self.fail2(st, n, fi, 'stop', '%s.stop' % nm, fn=ref, who=nm, phase=p)
        if name in ('execute', '__call__'):
            s = self.ev2(st, n, fi, 'execute', fn=ref, fork=fork, args=tuple(args), kwargs=tuple(sorted(kw.items())))
            m = s.mut(ref)
            m.fields['#acc'] = Tup(m.fields['#acc'].k[1:] + (Tup([args[0]]),))
            nr = args[1] if len(args) > 1 else kw.get('nodenr', NONE)
            return [(Tok('flow(%s%s)' % (text(args[0]), '' if nr == NONE else ',%s' % show(nr))), s)] + \
                self.fail2(st, n, fi, 'execute', 'execute', fn=ref)
        return w.call_opaque(Op('nodemethod', ref, Const(name)), args, kw, n, _Ctx(fi), st)

    def train_result(self, st):
        return NONE

    def stop_result(self, st):
        return NONE

    # ----------------------------------------------------------- scheduler
    def new_sched(self, w, st, name, container='mdp.parallel.scheduling.ListResultContainer'):
        """-> (ref, state)"""
        ci = self.prog.find_class('mdp.parallel.scheduling.Scheduler')
        ref = w.new_obj(st, ci, name, {'#sched': TRUE, '#task': NONE, '#pending': Tup([]), '#n': Const(0), '#open': TRUE})
        cont = w.new_obj(st, self.prog.find_class(container), 'container_' + name)
        init = self.prog.method(st.obj(cont).cls, '__init__')
        if init is not None:
            res = [x for x in w.run_func(st, init, [], {}, selfv=cont) if x[0] == RETURN]
            st = res[0][2]
        st.mut(ref).fields['result_container'] = cont
        return ref, st

    def sched_call(self, w, ref, name, args, kw, n, fi, st):
        who = st.obj(ref).name
        if name == 'shutdown':
            s = self.ev2(st, n, fi, 'shutdown', who=who)
            s.mut(ref).fields['#open'] = FALSE
            return [(NONE, s)]
        if st.obj(ref).fields['#open'] != TRUE:
            st = self.ev2(st, n, fi, 'closed-use', who=who)
        if name == 'add_task':
            data = args[0] if args else kw.get('data')
            call = args[1] if len(args) > 1 else kw.get('task_callable', NONE)
            s = self.ev2(st, n, fi, 'add', who=who, data=data, call=call)
            m = s.mut(ref)
            if call != NONE:
                m.fields['#task'] = call
            call = m.fields['#task']
            i = cval(m.fields['#n'])
            m.fields['#n'] = Const(i + 1)
            if call == NONE:
                return [(Exc('Exception', None, n, fi), self.ev2(s, n, fi, 'nocallable', who=who))]
            out = []
            for v, s1 in self.sub(w, s, call, 'fork', [], n, fi):
                if isinstance(v, Exc):
                    out.append((v, s1))
                elif self.late:
                    s1 = s1.copy()
                    m = s1.mut(ref)
                    m.fields['#pending'] = Tup(m.fields['#pending'].k[1:] + (Tup([v, data, Const(i)]),))
                    out.append((NONE, s1))
                else:
                    out.extend(self.run_task(w, s1, ref, v, data, Const(i), n, fi))
            return out
        if name == 'get_results':
            states = [(NONE, st)]
            pend = st.obj(ref).fields['#pending'].k[1:]
            if pend:
                s = st.copy()
                s.mut(ref).fields['#pending'] = Tup([])
                states = [(NONE, s)]
                for t in reversed(pend):
                    states = [y for v, s in states for y in ([(v, s)] if isinstance(v, Exc) else
                                                             self.run_task(w, s, ref, t.k[1], t.k[2], t.k[3], n, fi))]
            out = []
            for v, s in states:
                if isinstance(v, Exc):
                    # the failure is reported once everything was collected
                    out.extend((v, s2) for _, s2 in self.sub(w, s, s.obj(ref).fields['result_container'], 'get_results', [], n, fi))
                    continue
                s = self.ev2(s, n, fi, 'collect', who=who)
                out.extend(self.sub(w, s, s.obj(ref).fields['result_container'], 'get_results', [], n, fi))
            return out
        raise AssertionError(name)

    def run_task(self, w, st, ref, call, data, i, n, fi):
        out = []
        for v, s in self.sub(w, st, call, '__call__', [data], n, fi):
            if isinstance(v, Exc):
                out.append((v, s))
                continue
            for v2, s2 in self.sub(w, s, s.obj(ref).fields['result_container'], 'add_result', [v, i], n, fi):
                out.append((v2 if isinstance(v2, Exc) else NONE, s2))
        return out

    def sub(self, w, st, ref, name, args, n, fi):
        o = st.obj(ref)
        if not isinstance(o, HObj) or o.cls is None:
            return [(Exc('AttributeError', None, n, fi, origin=ref), st)]
        m = self.prog.method(o.cls, name)
        return w.call_func(m, None, ref, args, {}, n, fi, st)

    def decide(self, w, t, st):
        if t.tag == 'op' and t.k[1] in ('is', '==') and len(t.k) == 4:
            ty = [x for x in t.k[2:] if (x.tag == 'op' and x.k[1] == 'type') or (x.tag == 'call' and x.k[1].tag == 'ext' and x.k[1].k[1] == 'type')]
            if ty and any(x.tag == 'ext' and x.k[1] == 'numpy.ndarray' for x in t.k[2:]):
                v = ty[0].k[2] if ty[0].tag == 'op' else ty[0].k[2][0]
                return self.is_array(v, st)
        if t.tag == 'op' and t.k[1] == 'isinstance' and t.k[3].tag == 'ext' and t.k[3].k[1] == 'numpy.ndarray':
            return self.is_array(t.k[2], st)
        return NodeModelPolicy.decide(self, w, t, st)

    def is_array(self, v, st):
        return is_tok(v) and (text(v) in self.arrays or text(v)[0] in 'xy')


def par_setup(c, cls, specs, iterables=None, arrays=(), policy=ParPolicy, scheds=('sched',), container=None, **attrs):
    """-> (walker, policy, state, flow ref, node refs, scheduler refs)"""
    prog = c.prog
    nodes = {'n%d' % i: sp for i, sp in enumerate(specs)}
    pol = policy(prog, nodes, iterables, arrays)
    for k, v in attrs.items():
        setattr(pol, k, v)
    w = Walker(prog, pol)
    st = w.new_state()
    refs = pol.make(st, w)
    st.notes['noderefs'] = {'n%d' % i: r for i, r in enumerate(refs)}
    ci = prog.find_class(cls)
    me = w.new_obj(st, ci, 'flow')
    lst = st.alloc(HList(refs))
    outs = [s for k, v, s in w.run_method(st, me, '__init__', [lst], {}) if k == RETURN]
    if len(outs) != 1:
        from .model import AnalysisError
        raise AnalysisError('constructor of %s has %d outcomes' % (cls, len(outs)))
    st = outs[0]
    srefs = []
    for nm in scheds:
        r, st = pol.new_sched(w, st, nm, *([container] if container else []))
        srefs.append(r)
    st.trace = ()
    return w, pol, st, me, refs, srefs


def parops(st):
    return [e for e in st.trace if e.kind == 'par']


def par_lines(st):
    out = []
    for e in parops(st):
        d = e.data
        info = ''
        if e.op in ('train', 'execute'):
            info = '%s(%s)' % ('on a fork' if d.get('fork') else 'on the flow itself', ', '.join(show(a) for a in d.get('args', ())))
        elif e.op == 'stop':
            info = '%s phase %s after %s' % (e.who, e.phase, [show(a) for a in d.get('acc', ())])
        elif e.op in ('add', 'shutdown', 'collect', 'closed-use'):
            info = '%s %s' % (e.who, show(d['data']) if 'data' in d else '')
        out.append('%s %s %s%s' % (e.loc(), e.op, info, ' FAILS' if d.get('failed') else ''))
    return out[-40:]
