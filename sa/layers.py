"""Contract nodes inside layers and flow nodes (H01, H02).

The dimensions of the contained nodes are symbolic, so what is decided holds
for nodes of every size.  Slices of the input carry their symbolic bounds and
blocks written to an output array are recorded with theirs.
"""
from .flowmodel import NodeModelPolicy, NodeSpec, nodeops, text
from .model import AnalysisError
from .proto import Tok, TokenPolicy, array, exc_is, is_tok
from .walker import (Const, Exc, FALSE, Func, HDict, HList, HObj, Item, NONE, Op, RAISE, RETURN, TRUE, Tup, V, Walker, cval, is_const,
                     lin_add, show)

ALL = V(('slice', NONE, NONE, NONE))


def lin_sum(vs):
    r = Const(0)
    for v in vs:
        r = lin_add(r, v)
    return r


class SubNode(NodeSpec):
    def __init__(self, inp, out, phases=0, done=0, invertible=True, dtype=None, late=False, inv_late=False, cls='Node', req=0, supported=('f', 'd'), follows=False):
        NodeSpec.__init__(self, phases, done, req=req, invertible=invertible, inp=inp, out=out, cls=cls)
        self.late = late              # the output dimension is known only after training / the first execution
        self.dtype = dtype
        self.follows = follows        # setting the input dimension sets the output dimension
        self.supported = supported


class LayerPolicy(NodeModelPolicy):
    fail_ops = ()
    copying_fails = False
    max_depth = 20

    def __init__(self, prog, nodes, iterables=None, arrays=()):
        NodeModelPolicy.__init__(self, prog, nodes, iterables, arrays)

    # ------------------------------------------------------------- set-up
    def make(self, st, w, names=None):
        refs = []
        for nm in (names or sorted(self.nodes)):
            sp = self.nodes[nm]
            ci = self.prog.find_class({'Node': 'mdp.signal_node.Node'}.get(sp.cls, sp.cls))
            f = {'#phase': Const(sp.done), '#started': FALSE,
                 '_input_dim': NONE if sp.inp is None else Tok(sp.inp),
                 '_output_dim': NONE if sp.out is None or sp.late else Tok(sp.out),
                 '_dtype': NONE if sp.dtype is None else Tok(sp.dtype)}
            refs.append(w.new_obj(st, ci, nm, f))
        return refs

    # ---------------------------------------------------------- semantics
    def size(self, v, st):
        """shape of an array value, or None"""
        ov = st.notes.get(('ovr', v, 'shape'))
        if ov is not None:
            return list(ov.k[1:])
        if v.tag == 'item':
            base = self.size(v.k[1], st)
            if base is None:
                return None
            idx = list(v.k[2].k[1:]) if v.k[2].tag == 'tup' else [v.k[2]]
            out = []
            for d, x in zip(base, idx):
                if x.tag != 'slice':
                    return None
                lo, hi, step = x.k[1:]
                if lo == hi == step == NONE:
                    out.append(d)
                    continue
                lo = Const(0) if lo == NONE else lo
                hi = d if hi == NONE else hi
                out.append(lin_add(hi, lo, -1) or Op('extent', hi, lo))
            return out + base[len(out):]
        return None

    def load_term(self, w, b, name, st):
        if name in ('shape', 'ndim'):
            s = self.size(b, st)
            if s is not None:
                return Tup(s) if name == 'shape' else Const(len(s))
        if name == 'dtype' and (b.tag == 'item' or is_tok(b)):
            return Tok('d')
        return NodeModelPolicy.load_term(self, w, b, name, st)

    def new_array(self, st, shape, dtype=None, name='zeros'):
        st = st.copy()
        n = st.notes.get('arrays', 0)
        st.notes['arrays'] = n + 1
        t = Tok('%s#%d' % (name, n))
        if shape is not None:
            st.notes[('ovr', t, 'shape')] = Tup(shape)
            st.notes[('ovr', t, 'ndim')] = Const(len(shape))
        if dtype is not None:
            st.notes[('ovr', t, 'dtype')] = dtype
        return t, st

    def items(self, st, v):
        o = st.obj(v)
        if isinstance(o, HList) and not o.open:
            return list(o.items)
        if v.tag == 'tup':
            return list(v.k[1:])
        return None

    def intercept(self, w, f, args, kw, n, fi, st):
        if f.tag == 'ext':
            nm = f.k[1]
            if nm in ('numpy.zeros', 'numpy.empty', 'numpy.ones'):
                shape = self.items(st, args[0] if args else kw.get('shape', NONE))
                dt = kw.get('dtype') or (args[1] if len(args) > 1 else None)
                return [self.new_array(st, shape, dt, nm[6:])]
            if nm in ('numpy.any', 'numpy.all') and args:
                xs = self.items(st, args[0])
                if xs is not None and all(is_const(x) for x in xs):
                    g = any if nm.endswith('any') else all
                    return [(Const(g(bool(cval(x)) for x in xs)), st)]
            if nm in ('numpy.cumsum', 'numpy.sum', 'numpy.add.accumulate') and args:
                xs = self.items(st, args[0])
                if xs is not None:
                    if nm == 'numpy.sum':
                        return [(lin_sum(xs), st)]
                    st = st.copy()
                    return [(st.alloc(HList([lin_sum(xs[:i + 1]) for i in range(len(xs))])), st)]
            if nm in ('numpy.hstack', 'numpy.concatenate') and args:
                xs = self.items(st, args[0])
                axis = kw.get('axis') or (args[1] if len(args) > 1 else Const(0))
                if xs is not None and (nm == 'numpy.hstack' or axis in (Const(1), Const(-1))):
                    t, st = self.new_array(st, None, None, 'hcat')
                    st.notes[('hcat', t)] = tuple(xs)
                    return [(t, st)]
            if nm in ('numpy.array', 'numpy.asarray') and args and self.items(st, args[0]) is not None:
                return [(args[0], st)]
            if nm in ('copy.deepcopy', 'copy.copy') and args:
                return [self.copied(w, args[0], nm, st)] + ([(Exc('HookError', Tok('deepcopy failed'), n, fi), st)] if self.copying_fails else [])
        if f.tag == 'func':
            g = f.k[1]
            if g.name == 'refcast' and len(args) == 2:
                return [(args[0], st)]
            if g.name == 'get_dtypes' and g.cls is None:
                st = st.copy()
                return [(st.alloc(HList([Tok(x) for x in 'fdi'])), st)]
        if f.tag == 'attr' and f.k[2] == 'reshape' and st.obj(f.k[1]) is None:
            dims = self.items(st, args[0]) if len(args) == 1 else list(args)
            if dims is not None:
                base = f.k[1]
                t = Op('reshape', base, *dims)
                st = st.copy()
                st.notes[('ovr', t, 'shape')] = Tup(dims)
                st.notes[('ovr', t, 'ndim')] = Const(len(dims))
                return [(t, st)]
        return NodeModelPolicy.intercept(self, w, f, args, kw, n, fi, st)

    def copied(self, w, v, how, st):
        from .terms import deep_copy, shallow_copy
        st = st.copy()
        return (deep_copy(st, v, {}) if how == 'copy.deepcopy' else shallow_copy(st, v)), st

    def node_call(self, w, nm, ref, meth, args, kw, n, fi, st):
        sp = self.nodes[nm]
        o = st.obj(ref)
        p = cval(o.fields['#phase'])
        if meth == '_get_train_seq':
            st = st.copy()
            return [(st.alloc(HList([Tup([Op('trainstep', ref, Const(i)), Op('stopstep', ref, Const(i))]) for i in range(sp.phases)])), st)]
        if meth in ('_get_supported_dtypes', 'get_supported_dtypes'):
            st = st.copy()
            return [(st.alloc(HList([Tok(x) for x in sp.supported])), st)]
        if meth in ('_check_input', '_check_output'):
            return [(NONE, st)]
        if meth in ('get_input_dim', 'get_output_dim', 'get_dtype'):
            return [(o.fields['_' + meth[4:]], st)]
        if meth == '_set_dtype' or meth == '_set_input_dim' or meth == '_set_output_dim':
            st = self.ev(st, n, fi, meth[1:], nm, p, args, kw)
            st.mut(ref).fields[meth[4:]] = args[0]
            if meth == '_set_input_dim' and sp.follows:
                st.mut(ref).fields['_output_dim'] = Tok(sp.out)
            return [(NONE, st)]
        if meth in ('set_dtype', 'set_input_dim', 'set_output_dim'):
            return None
        if meth == 'has_multiple_training_phases':
            return [(Const(sp.phases > 1), st)]
        if meth == '_pre_execution_checks':
            if sp.phases - p > 1 or sp.phases > p and o.fields['#started'] != TRUE:
                return [(self.exc('mdp.signal_node.TrainingException', n, fi), st)]
            st = self.ev(st, n, fi, 'checks', nm, p, args, kw)
            if p < sp.phases:
                st = self.close(st, n, fi, nm, ref, p)
            if o.fields['_output_dim'] == NONE:
                st.mut(ref).fields['_output_dim'] = Tok(sp.out) if sp.out else NONE
            return [(NONE, st)]
        if meth == '_refcast':
            return [(args[0], st)]
        if meth == 'copy':
            st = self.ev(st, n, fi, 'copy', nm, p, args, kw)
            new = st.alloc(HObj(o.cls, dict(o.fields), o.name))
            return [(new, st)]
        if meth == '__call__':
            meth = 'execute'
        res = NodeModelPolicy.node_call(self, w, nm, ref, meth, args, kw, n, fi, st)
        if meth in ('execute', 'inverse') and res:
            out = []
            for v, s in res:
                if isinstance(v, V) and args:
                    s = s.copy()
                    v = Op('out', Const(nm), Const(meth), args[0])
                    x = self.size(args[0], s)
                    rows = x[0] if x else Op('rows', args[0])
                    if meth == 'execute' and s.obj(ref).fields['_output_dim'] == NONE and sp.out:
                        s.mut(ref).fields['_output_dim'] = Tok(sp.out)
                    cols = s.obj(ref).fields['_output_dim' if meth == 'execute' else '_input_dim']
                    s.notes[('ovr', v, 'shape')] = Tup([rows, cols])
                    s.notes[('ovr', v, 'ndim')] = Const(2)
                    s.notes[('ovr', v, 'dtype')] = Tok('dy')
                out.append((v, s))
            res = out
        return res

    def close(self, st, n, fi, nm, ref, p, args=(), kw=()):
        st = NodeModelPolicy.close(self, st, n, fi, nm, ref, p, args, kw)
        sp = self.nodes[nm]
        if p + 1 == sp.phases and sp.late and sp.out:
            st.mut(ref).fields['_output_dim'] = Tok(sp.out)
        return st

    def decide(self, w, t, st):
        if t.tag == 'op' and t.k[1] == 'is' and NONE in t.k[2:]:
            x = t.k[2] if t.k[3] == NONE else t.k[3]
            if x.tag in ('lin', 'item', 'op'):
                return False
        if t.tag == 'op' and t.k[1] == '==' and len(t.k) == 4:
            a, b = t.k[2:]
            if a.tag in ('lin', 'sym') and b.tag in ('lin', 'sym', 'const') or b.tag == 'lin':
                d = lin_add(a, b, -1)
                if d is not None:
                    if is_const(d):
                        return cval(d) == 0
                    return False
        if t.tag == 'op' and t.k[1] == '<' and len(t.k) == 4 and is_const(t.k[3]) and t.k[2].tag == 'lin':
            if all(cf > 0 for _, cf in t.k[2].k[1]) and cval(t.k[3]) <= 1:
                return False
        if t.tag == 'lin':
            return True
        if t.tag == 'op' and t.k[1] == 'isinstance' and t.k[3].tag == 'ext' and t.k[3].k[1] == 'numpy.ndarray' and self.size(t.k[2], st) is not None:
            return True
        if t.tag == 'op' and t.k[1] in ('out', 'reshape'):
            return True
        return NodeModelPolicy.decide(self, w, t, st)


# ----------------------------------------------------------------- results
def column_range(v, base, cols):
    """(lo, hi) of the columns of base that v selects, or None"""
    if v == base:
        return Const(0), cols
    if v.tag != 'item' or v.k[1] != base or v.k[2].tag != 'tup' or len(v.k[2].k) != 3:
        return None
    r, c = v.k[2].k[1:]
    if r != ALL or c.tag != 'slice' or c.k[3] != NONE:
        return None
    lo, hi = c.k[1], c.k[2]
    return Const(0) if lo == NONE else lo, cols if hi == NONE else hi


def blocks(st, v, cols, size):
    """[(lo, hi, value)] an array was filled with, in order of writing"""
    hc = st.notes.get(('hcat', v))
    if hc is not None:
        out, pos = [], Const(0)
        for x in hc:
            s = size(x, st)
            hi = lin_add(pos, s[1]) if s and len(s) > 1 else None
            if hi is None:
                return None
            out.append((pos, hi, x))
            pos = hi
        return out
    out = []
    for e in st.trace:
        if e.kind != 'store_item':
            continue
        if e.base == v:
            r = column_range(Item(v, e.index), v, cols)
            if r is None:
                return None
            out.append(r + (e.value,))
        elif e.base.tag == 'item' and e.base.k[1] == v:
            r = column_range(e.base, v, cols)
            if r is None or e.index not in (ALL, Const(Ellipsis)):
                return None
            out.append(r + (e.value,))
    return out
