"""Contract model of bi-nodes for the analysis of BiFlow.

A model node answers each call with the next entry of its script.  An answer
is (x, message, target): x 'y' (a new array) or None; message 'drop' (plain
array result), None, 'pass' (the message received), 'new' or 'both'; target an int,
a node id or 'exit'.  After its script a node passes x and message on.
Model nodes consume the entries addressed to them, as real bi-nodes do.
"""
import ast

from .flowmodel import text
from .proto import Tok, TokenPolicy, is_tok
from .walker import Const, Exc, HDict, HList, HObj, NONE, Op, RAISE, RETURN, TRUE, FALSE, Tup, V, Walker, cval, is_const, show

FLOW = 'bimdp.biflow.BiFlow'
ARR = 'arr'


class Spec(object):
    def __init__(self, bi=True, script=(), phases=0, train=(), stop=()):
        self.bi, self.script, self.phases, self.train, self.stop = bi, tuple(script), phases, tuple(train), tuple(stop)

    def __str__(self):
        def one(a):
            if a is None:
                return 'None'
            if a == 'bad':
                return a
            return '/'.join(str(k) for k in a)
        s = 'bi' if self.bi else 'plain'
        for nm in ('script', 'train', 'stop'):
            if getattr(self, nm):
                s += ' %s=%s' % (nm[0], ';'.join(one(a) for a in getattr(self, nm)))
        return s


def keyname(nm, key):
    return '%s->%s' % (nm, key)


# ------------------------------------------------------------------- answers
def answer(nm, op, k, a, xtext, msg):
    """what a model node returns: (x text or None, message dict or None or 'drop', target or None)

    msg: dict of the message received (None when there is none), entries for
    this node already removed.
    """
    if a is None:
        return None
    x, m, t = a
    y = None if x is None else '%s.%s%d(%s)' % (nm, op, k, xtext)
    if x == 'same':
        y = xtext
    if m == 'pass':
        m = dict(msg or {})
    elif m in ('new', 'both'):
        d = {nm: '%s.msg%d' % (nm, k)}
        if m == 'both':
            d = dict(msg or {}, **d)
        m = d
    elif m == 'for':
        m = {'n1->k': '%s.for' % nm, 'n0->k': '%s.for' % nm}
    elif m == 'arr':
        m = {ARR: 'arr:%s%d' % (nm, k)}
    return y, m, t


PASS = ('same', 'pass', None)
DROP = ('same', 'drop', None)


def without(msg, nm):
    return None if msg is None else {q: v for q, v in msg.items() if not q.startswith(nm + '->')}


def script_answer(script, k):
    if k < len(script):
        return script[k]
    return PASS


class BiModelPolicy(TokenPolicy):
    max_depth = 16
    while_bound = 16
    hooks_raise = False

    def __init__(self, prog, specs, iterables=None, arrays=()):
        self.prog = prog
        self.specs = dict(('n%d' % i, s) for i, s in enumerate(specs))
        self.iterables = iterables or {}
        self.arrays = set(arrays)

    def make(self, st, w):
        refs = []
        for nm in sorted(self.specs):
            sp = self.specs[nm]
            ci = self.prog.find_class('bimdp.binode.BiNode' if sp.bi else 'mdp.signal_node.Node')
            f = {'#phase': Const(0), '#calls': Const(0), '#started': FALSE, '_node_id': Const(nm), '#trained': Const(0)}
            refs.append(w.new_obj(st, ci, nm, f))
        return refs

    def model(self, st, v):
        o = st.obj(v) if v is not None else None
        return o.name if isinstance(o, HObj) and o.name in self.specs else None

    def load_method(self, w, ref, o, name, st):
        if o.name in self.specs and (name in ('is_trainable', 'is_training', 'is_invertible') or name in ('node_id',)):
            if name == 'node_id':
                return Const(o.name)
            return Op('modelmethod', ref, Const(name))
        return None

    def intercept(self, w, f, args, kw, n, fi, st):
        if f.tag == 'op' and f.k[1] == 'modelmethod':
            return self.node_call(w, self.model(st, f.k[2]), f.k[2], cval(f.k[3]), args, kw, n, fi, st)
        if f.tag == 'func' and f.k[3] is not None:
            nm = self.model(st, f.k[3])
            if nm is not None:
                r = self.node_call(w, nm, f.k[3], f.k[1].name, args, kw, n, fi, st)
                if r is not None:
                    return r
        if f.tag == 'ext' and f.k[1] == 'numpy.concatenate' and args:
            o = st.obj(args[0])
            items = list(o.items) if isinstance(o, HList) else (list(args[0].k[1:]) if args[0].tag == 'tup' else None)
            if items is not None and all(is_tok(x) for x in items) and len(args) + len(kw) == 1:
                return [(Tok('cat[%s]' % ', '.join(text(x) for x in items)), st)]
        return TokenPolicy.intercept(self, w, f, args, kw, n, fi, st)

    def exc(self, path, n, fi):
        return Exc(self.prog.find_class(path), None, n, fi)

    def node_call(self, w, nm, ref, meth, args, kw, n, fi, st):
        sp = self.specs[nm]
        o = st.obj(ref)
        p = cval(o.fields['#phase'])
        if meth == 'is_trainable':
            return [(Const(sp.phases > 0), st)]
        if meth == 'is_training':
            return [(Const(p < sp.phases), st)]
        if meth == 'get_current_train_phase':
            return [(Const(p), st)]
        if meth == 'get_remaining_train_phase':
            return [(Const(sp.phases - p), st)]
        if meth in ('__str__', '__repr__'):
            return [(Op('str', ref), st)]
        if meth == '_request_node_id' and args:
            if is_const(args[0]):
                return [(ref if sp.bi and cval(args[0]) == nm else NONE, st)]
            return [(NONE, st)]
        if meth in ('bi_reset', '_bi_reset'):
            s = st.copy()
            s.add_event('nodeop', n, fi, op='reset', who=nm, x='', msg=None)
            return [(NONE, s)]
        x = args[0] if args else kw.get('x', NONE)
        if meth in ('execute', '__call__'):
            if p < sp.phases:
                s = st.copy()
                s.add_event('nodeop', n, fi, op='early', who=nm, x=text(x), msg=None)
                return [(self.exc('mdp.signal_node.TrainingException', n, fi), s)]
            if not sp.bi:
                if len(args) + len(kw) != 1:
                    return [(Exc('TypeError', node=n, fi=fi), st)]
                s = st.copy()
                s.add_event('nodeop', n, fi, op='execute', who=nm, x=text(x), msg=None)
                return [(Tok('%s(%s)' % (nm, text(x))), s)]
            m = args[1] if len(args) > 1 else kw.get('msg', NONE)
            k = cval(o.fields['#calls'])
            s, msg = self.consume(st, nm, m)
            s.add_event('nodeop', n, fi, op='execute', who=nm, x=text(x), msg=msg)
            s.mut(ref).fields['#calls'] = Const(k + 1)
            a = script_answer(sp.script, k)
            return [self.give(s, nm, 'e', k, a, x, m, msg)]
        if meth == 'train':
            if p >= sp.phases:
                cls = 'TrainingFinishedException' if sp.phases else 'IsNotTrainableException'
                return [(self.exc('mdp.signal_node.' + cls, n, fi), st)]
            m = NONE
            if sp.bi:
                m = args[1] if len(args) > 1 else kw.get('msg', NONE)
            elif len(args) + len(kw) != 1:
                return [(Exc('TypeError', node=n, fi=fi), st)]
            s, msg = self.consume(st, nm, m)
            s.add_event('nodeop', n, fi, op='train%d' % p, who=nm, x=text(x), msg=msg)
            s.mut(ref).fields['#started'] = TRUE
            if not sp.bi:
                return [(NONE, s)]
            k = cval(o.fields['#trained'])
            s.mut(ref).fields['#trained'] = Const(k + 1)
            a = sp.train[k] if k < len(sp.train) else None
            return [self.give(s, nm, 't', k, a, x, m, msg)]
        if meth == 'stop_training':
            if p >= sp.phases:
                return [(self.exc('mdp.signal_node.TrainingFinishedException', n, fi), st)]
            if o.fields['#started'] != TRUE:
                s = st.copy()
                s.add_event('nodeop', n, fi, op='badstop', who=nm, x='', msg=None)
                return [(self.exc('mdp.signal_node.TrainingException', n, fi), s)]
            m = args[0] if args else kw.get('msg', NONE)
            s, msg = self.consume(st, nm, m)
            s.add_event('nodeop', n, fi, op='stop%d' % p, who=nm, x='', msg=msg)
            mo = s.mut(ref)
            mo.fields['#phase'] = Const(p + 1)
            mo.fields['#started'] = FALSE
            if not sp.bi:
                return [(NONE, s)]
            a = sp.stop[p] if p < len(sp.stop) else None
            return [self.give(s, nm, 's', p, a, NONE, m, msg)]
        return None

    def consume(self, st, nm, m):
        """remove the entries for this node; -> state, message as it was (dict or None)"""
        st = st.copy()
        o = st.obj(m)
        if not isinstance(o, HDict):
            return st, None
        seen = dict((cval(k), text(v)) for k, v in o.items)
        keep = tuple((k, v) for k, v in o.items if not cval(k).startswith(nm + '->'))
        if len(keep) != len(o.items):
            st.mut(m).items = keep
        return st, seen

    def give(self, st, nm, op, k, a, x, m, seen):
        if a is None:
            return NONE, st
        if a == 'bad':
            return Tup([x, NONE, Const(1), NONE]), st
        y, msg, t = answer(nm, op, k, a, text(x), without(seen, nm))
        st = st.copy()
        yv = x if a[0] == 'same' else (NONE if y is None else Tok(y))
        if msg == 'drop':
            return yv, st
        mv = NONE
        if a[1] == 'pass':
            mv = m if seen is not None else NONE
            if mv == NONE and t is None:
                return yv, st
        elif isinstance(msg, dict):
            mv = st.alloc(HDict([(Const(k), Tok(v)) for k, v in sorted(msg.items())]))
        return (Tup([yv, mv]) if t is None else Tup([yv, mv, Const(t)])), st

    # ------------------------------------------------------------ iterables
    def iter_values(self, w, v, n, fi, st):
        o = st.obj(v)
        if isinstance(o, HObj) and o.cls is not None:
            f = self.prog.method(o.cls, '__iter__')
            c = forever(f) if f is not None else None
            if c is not None:
                return [c] * 12
        if v.tag == 'call' and v.k[1].tag == 'ext' and v.k[1].k[1] == 'itertools.repeat' and len(v.k[2]) == 1:
            return [v.k[2][0]] * 12
        if is_tok(v) and text(v) in self.iterables:
            it = self.iterables[text(v)]
            if it.oneshot:
                return st.obj(st.notes[('iterobj', v)]).items if ('iterobj', v) in st.notes else it.items
            return it.items
        return None

    def iter_object(self, w, v, n, fi, st):
        if not is_tok(v) or text(v) not in self.iterables:
            return None
        it = self.iterables[text(v)]
        if it.oneshot and ('iterobj', v) in st.notes:
            return [(st.notes[('iterobj', v)], st)]
        st = st.copy()
        ref = st.alloc(HList(it.items, kind='iter'))
        if it.oneshot:
            st.notes[('iterobj', v)] = ref
        return [(ref, st)]

    def decide(self, w, t, st):
        if t.tag == 'op' and t.k[1] == 'isinstance' and is_tok(t.k[2]) and t.k[3].tag == 'ext' and t.k[3].k[1] == 'numpy.ndarray':
            return text(t.k[2]) in self.arrays or text(t.k[2]).startswith('arr')
        if t.tag == 'op' and t.k[1] == 'isinstance' and t.k[2].tag in ('ref', 'tup', 'const') and t.k[3].tag == 'ext' and t.k[3].k[1] == 'numpy.ndarray':
            return False
        if t.tag == 'op' and t.k[1] == 'isinstance' and t.k[3].tag == 'ext' and t.k[3].k[1] == 'tuple' and not is_const(t.k[2]):
            return t.k[2].tag == 'tup'
        if t.tag == 'op' and t.k[1] == 'hasattr' and is_const(t.k[3], '__iter__') and isinstance(st.obj(t.k[2]), (HList, HDict)):
            return True
        if t.tag == 'op' and t.k[1] == 'hasattr' and is_tok(t.k[2]) and is_const(t.k[3], '__iter__'):
            return text(t.k[2]) in self.iterables or text(t.k[2]) in self.arrays
        if t.tag == 'op' and t.k[1] in ('==', 'is'):
            for a, b in ((t.k[2], t.k[3]), (t.k[3], t.k[2])):
                ty = a.k[2] if a.tag == 'op' and a.k[1] == 'type' else (a.k[2][0] if a.tag == 'call' and a.k[1].tag == 'ext' and a.k[1].k[1] == 'type' and a.k[2] else None)
                if ty is not None and b.tag == 'ext':
                    if b.k[1].rpartition('.')[2] == 'ndarray':
                        return is_tok(ty) and (text(ty).startswith('arr') or text(ty) in self.arrays)
                    if b.k[1].rpartition('.')[2] == 'tuple':
                        return ty.tag == 'tup'
                    if b.k[1].rpartition('.')[2] == 'dict':
                        return isinstance(st.obj(ty), HDict)
                if is_tok(a) and b.tag == 'ext':
                    return False
        return TokenPolicy.decide(self, w, t, st)


def forever(f):
    """the constant a generator method yields forever, else None"""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) == 1 and isinstance(body[0], ast.While) and isinstance(body[0].test, ast.Constant) and body[0].test.value and len(body[0].body) == 1:
        s = body[0].body[0]
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield) and (s.value.value is None or isinstance(s.value.value, ast.Constant)):
            return Const(s.value.value.value) if s.value.value is not None else NONE
    return None


# -------------------------------------------------------------------- oracle
class Refused(Exception):
    pass


class Oracle(object):
    """what a flow of model nodes has to do, after the documentation"""
    def __init__(self, specs):
        self.specs = list(specs)
        self.calls = [0] * len(specs)
        self.trained = [0] * len(specs)
        self.phase = [0] * len(specs)
        self.log = []          # (op, node, x, message)

    def index(self, target, current):
        n = len(self.specs)
        if target == 'exit':
            return 'exit'
        if isinstance(target, int):
            return current + target
        for i, s in enumerate(self.specs):
            if s.bi and target == 'n%d' % i:
                return i
        return target

    def call(self, i, x, msg):
        """-> (x, msg, target)"""
        sp, nm = self.specs[i], 'n%d' % i
        if not sp.bi:
            if self.phase[i] < sp.phases:
                raise Refused('node is not trained')
            self.log.append(('execute', nm, x, None))
            return '%s(%s)' % (nm, x), msg, 1
        if self.phase[i] < sp.phases:
            raise Refused('node is not trained')
        self.log.append(('execute', nm, x, None if msg is None else dict(msg)))
        k = self.calls[i]
        self.calls[i] += 1
        return self.result(nm, 'e', k, script_answer(sp.script, k), x, msg, 1)

    @staticmethod
    def result(nm, op, k, a, x, msg, default):
        if a == 'bad':
            raise Refused('invalid result')
        y, m, t = answer(nm, op, k, a, x, without(msg, nm))
        if m == 'drop':
            m = None
        if a[1] == 'pass' and msg is None:
            m = None
        return ('None' if y is None else y), m, default if t is None else t

    def run(self, x, msg, i, stop=None, bound=14):
        """-> (x, msg, end) : end is 'end', 'exit', 'start' (before the first node), 'stop' or 'missing'"""
        if msg is not None:
            msg = dict(msg)
        for _ in range(bound):
            if i == stop:
                return x, msg, 'stop'
            if i == 'exit':
                return x, msg, 'exit'
            if not isinstance(i, int):
                return x, msg, ('missing', i)
            if i == len(self.specs):
                return x, msg, 'end'
            if i == -1:
                return x, msg, 'start'
            if i < 0 or i > len(self.specs):
                raise Refused('target outside of the flow')
            x, msg, t = self.call(i, x, msg)
            i = self.index(t, i)
        raise AssertionError('script does not end')


def observed(s, start=0):
    """node operations of a path as the oracle logs them"""
    return [(e.op, e.who, e.x, e.msg) for e in s.trace[start:] if e.kind == 'nodeop']


def oplines(log):
    return ['%s.%s(%s%s)' % (nm, op, x, '' if m is None else ', {%s}' % ', '.join('%s: %s' % kv for kv in sorted(m.items()))) for op, nm, x, m in log]


def msgdict(st, v):
    o = st.obj(v)
    if isinstance(o, HDict):
        return dict((cval(k) if is_const(k) else show(k), text(x)) for k, x in o.items)
    return None
