"""Contract model of a node, used to check flow code compositionally.

Flow code is interpreted abstractly; a node it drives is a model object that
only knows the node contract (training phase automaton, checked for the real
node code by L01/L02) and whose algorithm steps may fail.  Every call on a
node is recorded as an event with the provenance of its arguments.
"""
from .model import AnalysisError
from .proto import Tok, TokenPolicy, is_tok, trace_lines
from .walker import (Const, Exc, FALSE, Func, HDict, HList, HObj, NONE, Op, RAISE, RETURN,
                     TRUE, Tup, V, Walker, cval, is_const, show)


# operations of nodes that have a meaning of their own in the models; every other method is interpreted
API = frozenset("""__add__ __call__ __init__ __repr__ __str__ _bi_reset _check_input _check_output _check_params _check_train_args _combine_result _execute
    _extract_message_key _extract_method_args _get_method _get_msg_id_keys _get_supported_dtypes _get_supported_training_types _get_train_seq
    _if_training_stop_training _inverse _pre_execution_checks _pre_inversion_checks _refcast _request_node_id _set_dtype _set_input_dim _set_numx_rng
    _set_output_dim _stop_training _train bi_reset copy execute get_current_train_iteration get_current_train_phase get_dtype get_input_dim get_numx_rng
    get_output_dim get_remaining_train_phase get_supported_dtypes has_multiple_training_phases inverse is_invertible is_trainable is_training node_id save
    set_dtype set_input_dim set_numx_rng set_output_dim set_training_type stop_training train training_type
    _fork _join use_execute_fork _default_fork fork join label prob rank""".split())


class NodeSpec(object):
    def __init__(self, phases=0, done=0, req=0, opt=0, invertible=True, inp=None, out=None, cls='Node'):
        self.phases, self.done = phases, done
        self.req, self.opt = req, opt          # training arguments with / without default
        self.invertible = invertible
        self.inp, self.out = inp, out
        self.cls = cls


class Iterable(object):
    """what a data source yields: items, and whether it can be restarted"""
    def __init__(self, items, oneshot=False):
        self.items, self.oneshot = items, oneshot


def text(v):
    """name of a data token"""
    if is_tok(v):
        return v.k[1][1:]
    return show(v)


class NodeModelPolicy(TokenPolicy):
    max_depth = 16
    while_bound = 4
    fail_ops = ('train', 'stop', 'execute', 'inverse')

    def __init__(self, prog, nodes, iterables=None, arrays=()):
        self.prog = prog
        self.nodes = nodes              # name -> NodeSpec
        self.iterables = iterables or {}
        self.arrays = set(arrays)

    # -------------------------------------------------------------- set-up
    def make(self, st, w, names=None):
        refs = []
        for nm in (names or sorted(self.nodes)):
            sp = self.nodes[nm]
            ci = self.prog.find_class({'Node': 'mdp.signal_node.Node',
                                       'OnlineNode': 'mdp.signal_node_online.OnlineNode'}.get(sp.cls, sp.cls))
            f = {'#phase': Const(sp.done), '#started': FALSE}
            for a, v in (('input_dim', sp.inp), ('output_dim', sp.out)):
                v = NONE if v is None else (v if isinstance(v, V) else Tok(v))
                f[a] = v
                f['_' + a] = v
            refs.append(w.new_obj(st, ci, nm, f))
        return refs

    def model(self, st, v):
        if v is None:
            return None
        o = st.obj(v)
        if isinstance(o, HObj) and o.name in self.nodes:
            return o.name
        return None

    # ----------------------------------------------------------- semantics
    def load_method(self, w, ref, o, name, st):
        if o.name in self.nodes and name in ('is_trainable', 'is_invertible'):
            return Op('modelmethod', ref, Const(name))
        return None

    def intercept(self, w, f, args, kw, n, fi, st):
        if f.tag == 'op' and f.k[1] == 'modelmethod':
            return self.node_call(w, self.model(st, f.k[2]), f.k[2], cval(f.k[3]), args, kw, n, fi, st)
        if f.tag == 'func' and f.k[3] is not None:
            nm = self.model(st, f.k[3])
            if nm is not None:
                r = self.node_call(w, nm, f.k[3], f.k[1].name, args, kw, n, fi, st)
                if r is not None:
                    return r
        if f.tag == 'ext' and f.k[1] in ('inspect.getfullargspec', 'inspect.getargspec') and args:
            g = args[0]
            if g.tag == 'func' and g.k[3] is not None and self.model(st, g.k[3]):
                sp = self.nodes[self.model(st, g.k[3])]
                names = ['self', 'x'] + ['req%d' % i for i in range(sp.req)] + ['opt%d' % i for i in range(sp.opt)]
                st = st.copy()
                ref = st.alloc(HList([Const(x) for x in names]))
                defs = Tup([NONE] * sp.opt) if sp.opt else NONE
                return [(Tup([ref, NONE, NONE, defs]), st)]
        if f.tag == 'ext' and f.k[1] == 'numpy.concatenate' and args:
            o = st.obj(args[0])
            items = list(o.items) if isinstance(o, HList) else (list(args[0].k[1:]) if args[0].tag == 'tup' else None)
            axis = args[1] if len(args) > 1 else kw.get('axis', Const(0))
            if items is not None and all(is_tok(x) for x in items) and axis == Const(0):
                return [(Tok('cat[%s]' % ', '.join(text(x) for x in items)), st)]
        return TokenPolicy.intercept(self, w, f, args, kw, n, fi, st)

    def exc(self, path, n, fi):
        ci = self.prog.find_class(path)
        return Exc(ci, None, n, fi)

    def node_call(self, w, nm, ref, meth, args, kw, n, fi, st):
        sp = self.nodes[nm]
        o = st.obj(ref)
        p, started = cval(o.fields['#phase']), cval(o.fields['#started'])
        P = sp.phases
        if meth == 'is_trainable':
            return [(Const(P > 0), st)]
        if meth == 'is_training':
            return [(Const(p < P), st)]
        if meth == 'is_invertible':
            return [(Const(sp.invertible), st)]
        if meth == 'get_current_train_phase':
            return [(Const(p), st)]
        if meth == 'get_remaining_train_phase':
            return [(Const(P - p), st)]
        if meth in ('get_input_dim', 'get_output_dim'):
            return [(o.fields[meth[4:]], st)]
        if meth in ('__str__', '__repr__'):
            return [(Op('str', ref), st)]
        if meth == 'train':
            if P == 0:
                return [(self.exc('mdp.signal_node.IsNotTrainableException', n, fi), st)]
            if p >= P:
                return [(self.exc('mdp.signal_node.TrainingFinishedException', n, fi), st)]
            s = self.ev(st, n, fi, 'train', nm, p, args, kw)
            s.mut(ref).fields['#started'] = TRUE
            return [(NONE, s)] + self.failing(st, n, fi, 'train', nm, p, args, kw)
        if meth == 'stop_training':
            if p >= P:
                return [(self.exc('mdp.signal_node.TrainingFinishedException', n, fi), st)]
            if not started:
                s = st.copy()
                s.add_event('nodeop', n, fi, op='badstop', who=nm, phase=p, args=(), failed=True)
                return [(self.exc('mdp.signal_node.TrainingException', n, fi), s)]
            return [(NONE, self.close(st, n, fi, nm, ref, p, args, kw))] + self.failing(st, n, fi, 'stop', nm, p, (), {})
        if meth in ('execute', 'inverse'):
            if meth == 'inverse' and not sp.invertible:
                return [(self.exc('mdp.signal_node.IsNotInvertibleException', n, fi), st)]
            if p < P and sp.cls == 'OnlineNode':
                # online nodes can be executed at any time; an untrained one first trains on the data
                if p == 0 and not started:
                    st = self.ev(st, n, fi, 'train', nm, p, args, kw)
                    st.mut(ref).fields['#started'] = TRUE
                out = []
            elif p < P:
                if P - p > 1 or not started:
                    s = st.copy()
                    s.add_event('nodeop', n, fi, op='early', who=nm, phase=p, args=tuple(args), failed=True)
                    return [(self.exc('mdp.signal_node.TrainingException', n, fi), s)]
                out = self.failing(st, n, fi, 'stop', nm, p, (), {})
                st = self.close(st, n, fi, nm, ref, p)
            else:
                out = []
            res = Tok('%s%s(%s)' % (nm, '' if meth == 'execute' else '^-1', ', '.join(text(a) for a in args)))
            s = self.ev(st, n, fi, meth, nm, P, args, kw)
            out.append((res, s))
            return out + self.failing(st, n, fi, meth, nm, P, args, kw)
        if meth in ('__call__',) or meth not in API:
            return None                        # helpers of the node protocol are interpreted
        return w.call_opaque(Op('nodemethod', ref, Const(meth)), args, kw, n, _Ctx(fi), st)

    def ev(self, st, n, fi, op, nm, p, args, kw, failed=False):
        s = st.copy()
        s.add_event('nodeop', n, fi, op=op, who=nm, phase=p, args=tuple(args), kwargs=tuple(sorted(kw.items())), failed=failed)
        return s

    def close(self, st, n, fi, nm, ref, p, args=(), kw=()):
        s = self.ev(st, n, fi, 'stop', nm, p, args, dict(kw))
        m = s.mut(ref)
        m.fields['#phase'] = Const(p + 1)
        m.fields['#started'] = FALSE
        return s

    def failing(self, st, n, fi, op, nm, p, args, kw):
        if op not in self.fail_ops:
            return []
        s = self.ev(st, n, fi, op, nm, p, args, kw, True)
        return [(Exc('HookError', Tok('failure of %s.%s' % (nm, op)), n, fi, origin=Tok('%s.%s' % (nm, op))), s)]

    def iter_object(self, w, v, n, fi, st):
        if not is_tok(v) or text(v) not in self.iterables:
            return None
        it = self.iterables[text(v)]
        if it.oneshot and ('iterobj', v) in st.notes:
            return [(st.notes[('iterobj', v)], st)]
        st = st.copy()
        ref = st.alloc(HList(it.items, kind='iter'))
        if it.oneshot:
            st.notes[('iterobj', v)] = ref
        return [(ref, st)]

    def iter_values(self, w, v, n, fi, st):
        if v.tag == 'item' and is_tok(v.k[1]) and text(v.k[1]) in self.arrays:
            # a[:, newaxis, :] yields the samples of a as chunks
            idx = v.k[2]
            if idx.tag == 'tup' and len(idx.k) == 4 and idx.k[1].tag == 'slice' and idx.k[3].tag == 'slice' \
                    and set(idx.k[1].k[1:]) == {NONE} and set(idx.k[3].k[1:]) == {NONE}:
                return [Tok('%s_s%d' % (text(v.k[1]), i)) for i in range(2)]
        if is_tok(v) and text(v) in self.arrays and ('ovr', v, 'ndim') in st.notes:
            if st.notes[('ovr', v, 'ndim')] == Const(3):
                return [Tok('%s_s%d' % (text(v), i)) for i in range(2)]
            return [Tok('%s_row%d' % (text(v), i)) for i in range(2)]
        if is_tok(v) and text(v) in self.iterables:
            it = self.iterables[text(v)]
            if not it.oneshot:
                return it.items
            return st.obj(st.notes[('iterobj', v)]).items if ('iterobj', v) in st.notes else it.items
        return None

    def decide(self, w, t, st):
        if t.tag == 'op' and t.k[1] == 'isinstance' and is_tok(t.k[2]) and t.k[3].tag == 'ext' \
                and t.k[3].k[1] == 'numpy.ndarray':
            return text(t.k[2]) in self.arrays
        if t.tag == 'op' and t.k[1] == 'hasattr' and is_const(t.k[3], '__iter__') and isinstance(st.obj(t.k[2]), (HList, HDict)):
            return True
        if t.tag == 'op' and t.k[1] == 'hasattr' and is_tok(t.k[2]):
            if is_const(t.k[3], '__iter__'):
                return text(t.k[2]) in self.iterables or text(t.k[2]) in self.arrays
        if t.tag == 'op' and t.k[1] == 'is' and any(is_tok(x) for x in t.k[2:]) and any(x.tag == 'ext' for x in t.k[2:]):
            return False
        if t.tag == 'op' and t.k[1] == 'is' and any(x.tag == 'op' and x.k[1] == 'type' and is_tok(x.k[2]) for x in t.k[2:]):
            return False
        if t.tag == 'op' and t.k[1] in ('==', 'is') and any(x.tag == 'call' and x.k[1].tag == 'ext' and x.k[1].k[1] == 'type' for x in t.k[2:]):
            return False
        return TokenPolicy.decide(self, w, t, st)


class _Ctx(object):
    def __init__(self, fi):
        self.fi = fi


def nodeops(st, start=0):
    return [e for e in st.trace[start:] if e.kind == 'nodeop']


def op_lines(st, start=0):
    out = []
    for e in nodeops(st, start):
        out.append('%s %s.%s[phase %s](%s)%s' % (e.loc(), e.who, e.op, e.phase, ', '.join(text(a) for a in e.args),
                                                ' FAILS' if e.failed else ''))
    return out[-40:]


def mentions(st, v, ref, depth=0, seen=None):
    """value v (an exception object, text, ...) is built from ref"""
    seen = set() if seen is None else seen
    if v == ref:
        return True
    if depth > 40 or v in seen:
        return False
    seen.add(v)
    o = st.obj(v)
    if isinstance(o, HObj):
        return any(mentions(st, x, ref, depth + 1, seen) for x in o.fields.values())
    if isinstance(o, HList):
        return any(mentions(st, x, ref, depth + 1, seen) for x in o.items)
    for k in v.k:
        if isinstance(k, V) and mentions(st, k, ref, depth + 1, seen):
            return True
        if isinstance(k, tuple):
            for x in k:
                if isinstance(x, V) and mentions(st, x, ref, depth + 1, seen):
                    return True
    return False
