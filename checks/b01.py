"""BiNode: which entries of a message reach the algorithm and what is passed on."""
import itertools

from sa.proto import Hook, Tok, TokenPolicy, array, exc_is, hook_events, hook_name, is_tok, trace_lines
from sa.walker import Attr, Const, Exc, Ext, FALSE, Func, HDict, HList, HObj, NONE, Op, RAISE, RETURN, TRUE, Tup, Walker, cval, is_const, show

TITLE = 'A BiNode gives each method the message entries meant for it and passes on the rest'
RULES = ('execute, train and stop_training of BiNode are interpreted for every combination of plain, node specific and foreign message entries for an argument, the target and the '
         'method, for algorithm methods with and without msg argument and every form of result. The arguments of the algorithm, the message and target returned, '
         'the phase bookkeeping and the refusals are compared with the documented message protocol.')
ASSUMPTIONS = ['algorithm methods are arbitrary; they return an array, (array, message), (array, message, target) or None']
BN = 'bimdp.binode.BiNode'
ME, OTHER = 'me', 'you'


class BiPolicy(TokenPolicy):
    """the algorithm hooks are methods with the given argument names"""
    max_depth = 12
    hooks_raise = False

    def __init__(self, sigs, results):
        self.sigs = sigs
        self.results = results

    def intercept(self, w, f, args, kw, n, fi, st):
        if f.tag == 'ext' and f.k[1] in ('inspect.getfullargspec', 'inspect.getargspec') and args:
            nm = hook_name(args[0])
            if nm in self.sigs:
                st = st.copy()
                ref = st.alloc(HList([Const(x) for x in ['self'] + list(self.sigs[nm])]))
                return [(Tup([ref, NONE, NONE, NONE, NONE, NONE, NONE]), st)]
        nm = hook_name(f)
        if nm in self.sigs:
            st = st.copy()
            st.add_event('algo', n, fi, who=nm, args=tuple(args), kwargs=dict((k, snap(st, v)) for k, v in kw.items()))
            return [(self.result(st, nm), st)]
        if f.tag == 'func' and f.k[1].name == 'refcast':
            return [(Op('cast', args[0]), st)]
        if f.tag == 'func' and f.k[1].name == 'get_dtypes':
            st = st.copy()
            return [(st.alloc(HList([Tok('dt')])), st)]
        return TokenPolicy.intercept(self, w, f, args, kw, n, fi, st)

    def load_field(self, w, b, o, name, st):
        if name == '_missing':
            return (Exc('AttributeError', node=None, fi=None), st)
        return TokenPolicy.load_field(self, w, b, o, name, st)

    def result(self, st, nm):
        r = self.results.get(nm)
        if r is None:
            return NONE
        out = []
        for x in r if isinstance(r, tuple) else (r,):
            if isinstance(x, dict):
                x = st.alloc(HDict([(Const(k), v) for k, v in x.items()]))
            elif isinstance(x, str):
                x = Tok(x)
            elif x is None:
                x = NONE
            elif isinstance(x, int):
                x = Const(x)
            out.append(x)
        return Tup(out) if isinstance(r, tuple) else out[0]

    def decide(self, w, t, st):
        if t.tag == 'op' and t.k[1] == 'isinstance' and t.k[3].tag == 'ext' and t.k[3].k[1] == 'tuple':
            return t.k[2].tag == 'tup'
        if t.tag == 'op' and t.k[1] in ('==', 'is') and all(hook_name(x) is not None for x in t.k[2:]):
            return t.k[2] == t.k[3]
        if t.tag == 'op' and t.k[1] == 'cast':
            return True
        if t.tag == 'op' and t.k[1] == 'is' and NONE in t.k[2:] and any(x.tag == 'op' for x in t.k[2:]):
            return False
        return TokenPolicy.decide(self, w, t, st)


def snap(st, v):
    o = st.obj(v)
    if isinstance(o, HDict):
        return ('dict',) + tuple(sorted((cval(k), x) for k, x in o.items))
    return v


def plain(st, v):
    """message of a result as a dict (None: no message)"""
    o = st.obj(v)
    if isinstance(o, HDict):
        return {cval(k): snap(st, x) for k, x in o.items}
    if v == NONE:
        return None
    return show(v)


class Node(object):
    def __init__(self, c, sigs, results, fields=None):
        self.c = c
        self.pol = BiPolicy(sigs, results)
        self.w = Walker(c.prog, self.pol)
        self.ci = c.prog.find_class(BN)
        st = self.w.new_state()
        self.x = array(st, 'x', cols=Tok('d'), dtype=Tok('dt'))
        f = {'_node_id': Const(ME), '_stop_result': NONE, '_coroutine_instances': NONE, '_input_dim': Tok('d'), '_output_dim': Tok('d'), '_dtype': Tok('dt'),
             '_training': FALSE, '_train_phase': Const(1), '_train_phase_started': FALSE}
        for s in sigs:
            if s != '_stop_training2':
                f[s] = Hook(s)
        f['_check_train_args'] = Hook('_check_train_args')
        f.update(fields or {})
        self.me = self.w.new_obj(st, self.ci, 'node', f)
        self.st = st

    def run(self, meth, args, msg):
        st = self.st.copy()
        ref = NONE
        if msg is not None:
            ref = st.alloc(HDict([(Const(k), v) for k, v in msg.items()]))
        out = []
        for kind, v, s in self.w.run_method(st, self.me, meth, list(args) + [ref]):
            self.c.count('paths')
            out.append((kind, v, s))
        self.c.visits(self.w)
        return out


# ------------------------------------------------------------- the protocol
def protocol(msg, sig):
    """-> (target, method, arguments of the algorithm, message passed on or None)

    sig: argument names of the method that is going to be called
    """
    own = {k.split('->')[1]: k for k in msg if k.startswith(ME + '->')}
    rest = {k: v for k, v in msg.items() if k not in own.values()}
    get = {}
    for key in ('target', 'method'):
        get[key] = msg[own[key]] if key in own else msg.get(key)
    args = {}
    for k in sig:
        if k in own:
            args[k] = msg[own[k]]
        elif k in msg:
            args[k] = msg[k]
    if 'msg' in sig:
        args['msg'] = ('dict',) + tuple(sorted(rest.items()))
        return get['target'], get['method'], args, None
    return get['target'], get['method'], args, rest


def combine(res, msg, target):
    """what the node returns: (x, message, target)"""
    if isinstance(res, tuple):
        x, m = res[0], res[1]
        t = res[2] if len(res) == 3 else None
        out = dict(msg or {})
        out.update(m or {})
        return x, out, (t if len(res) == 3 else target)
    return res, dict(msg or {}), target


def unpack(st, v):
    """(x, message dict, target) of an actual result"""
    if v.tag == 'tup':
        k = v.k[1:]
        if len(k) not in (2, 3):
            return None
        m = plain(st, k[1])
        return k[0], (m or {}), (k[2] if len(k) == 3 else None)
    return v, {}, None


def val(x):
    if x is None:
        return NONE
    if isinstance(x, str):
        return Tok(x)
    if isinstance(x, int):
        return Const(x)
    return x


RESULTS = ['y', ('y', {'r': Tok('r1')}), ('y', None), ('y', {'z': Tok('z2'), 'r': Tok('r1')}, 't2'), ('y', {'r': Tok('r1')}, -1), (None, {'r': Tok('r1')})]
SIGS = [('x',), ('x', 'a'), ('x', 'a', 'b'), ('x', 'a', 'msg'), ('x', 'msg')]


def messages():
    groups = [[{}, {'a': Tok('a0')}, {'me->a': Tok('a1')}, {'a': Tok('a0'), 'me->a': Tok('a1')}],
              [{}, {'you->a': Tok('a2')}],
              [{}, {'z': Tok('z0')}],
              [{}, {'me->q': Tok('q')}],
              [{}, {'target': Const('t0')}, {'me->target': Const('t1')}, {'target': Const('t0'), 'me->target': Const('t1')}, {'target': Const(0)}],
              [{}, {'me->b': Tok('b1')}]]
    for combo in itertools.product(*groups):
        m = {}
        for d in combo:
            m.update(d)
        yield m


def label(*xs):
    return ','.join(str(x) for x in xs)


def names(m):
    return '{%s}' % ' '.join(sorted(m)) if m is not None else 'None'


def execute(c, tier):
    msgs = list(messages())
    for si, sig in enumerate(SIGS):
        for ri, res in enumerate(RESULTS):
            node = Node(c, {'_execute': sig, '_inverse': sig, '_other': sig}, {'_execute': res, '_inverse': res, '_other': res})
            for mi, m in enumerate(msgs):
                if tier == 'quick' and (mi + ri + si) % 7:
                    continue
                for meth in ([None] if mi % 9 else [None, 'execute', 'inverse', 'other']):
                    for own in ((False,) if meth is None else (False, True)):
                        m2 = dict(m)
                        if meth:
                            m2[('me->' if own else '') + 'method'] = Const(meth)
                        case(c, node, 'execute', m2, sig, res, meth, {None: '_execute', 'execute': '_execute', 'inverse': '_inverse', 'other': '_other'}[meth])
        # no message at all
    for ri, res in enumerate(RESULTS[:2]):
        node = Node(c, {'_execute': ('x',)}, {'_execute': res})
        for kind, v, s in node.run('execute', [node.x], None):
            ob(c, 'works', 'execute[no message]', kind == RETURN, s, 'execute without message ends in %s' % (v.name if kind == RAISE else ''))
            if kind == RETURN:
                evs = [e for e in s.trace if e.kind == 'algo']
                ob(c, 'algorithm-call', 'execute[no message]', len(evs) == 1 and evs[0].args == (Op('cast', node.x),) and not evs[0].kwargs, s, 'the algorithm is not called with the data alone')
                ob(c, 'result', 'execute[no message]', v == (Tok('y') if ri == 0 else v), s, 'execute returns %s' % show(v))
    for meth in ('execute', 'train'):
        node = Node(c, {'_execute': ('x',), '_train': ('x',)}, {'_execute': 'y'}, training(c))
        for kind, v, s in node.run(meth, [NONE], None):
            ob(c, 'nothing-refused', meth, kind == RAISE and exc_is(c.prog, v, ['BiNodeException']), s, '%s without data and message ends in %s' % (meth, v.name if kind == RAISE else 'a normal return'))
    # unknown methods are refused
    for meth in ('execute', 'train'):
        node = Node(c, {'_execute': ('x',), '_train': ('x',)}, {'_execute': 'y'}, training(c))
        for kind, v, s in node.run(meth, [node.x], {'method': Const('missing')}):
            ok = kind == RAISE and exc_is(c.prog, v, ['BiNodeException'])
            ob(c, 'unknown-method', meth, ok, s, 'a message for a method the node does not have ends in %s' % (v.name if kind == RAISE else 'a normal return'))


def training(c):
    return {'_training': TRUE, '_train_phase': Const(0), '_get_train_seq': Hook('_get_train_seq')}


def ob(c, rule, lab, ok, s, msg):
    loc = ''
    for e in reversed(s.trace):
        if e.kind in ('algo', 'call', 'branch', 'raised', 'store', 'enter', 'mutate') and e.fi is not None and e.loc() and ':0' not in e.loc():
            loc = e.loc()
            break
    return c.obl(rule, lab, ok, loc, msg, trace_lines(s, 0, 16) if not ok else None)


def case(c, node, op, m, sig, res, meth, algo):
    lab = '%s[%s,%s]' % (op, '+'.join(sig), names(m))
    target, method, args, rest = protocol(m, sig)
    want_args = {k: v for k, v in args.items() if k != 'x'}
    if meth == 'inverse' and target is None:
        target = Const(-1)
    for kind, v, s in node.run(op, [node.x], m):
        if not ob(c, 'works', lab, kind == RETURN, s, '%s ends in %s' % (op, v.name if kind == RAISE else '')):
            continue
        evs = [e for e in s.trace if e.kind == 'algo' and e.who in node.pol.sigs]
        ob(c, 'method-selected', lab, [e.who for e in evs] == [algo], s, 'the methods called are %s instead of %s' % ([e.who for e in evs], algo))
        if len(evs) == 1:
            got = evs[0].kwargs
            ob(c, 'arguments', lab, got == want_args, s, 'the algorithm gets %s instead of %s' % (txt(got), txt(want_args)))
            x = evs[0].args
            okx = x in ((node.x,), (Op('cast', node.x),))
            ob(c, 'data-passed', lab, okx, s, 'the algorithm is not called with the data')
        if op == 'train' and res is None:
            ob(c, 'result', lab, v == NONE, s, 'training without result returns %s' % show(v))
            continue
        y, msg, t = combine(res, rest, target)
        if op == 'train' and y is None and t is None:
            ob(c, 'result', lab, v == NONE, s, 'training without result returns %s' % show(v))
            continue
        r = unpack(s, v)
        ob(c, 'result', lab, r is not None and r[0] == val(y), s, 'the value returned is %s instead of %s' % (show(v), show(val(y))))
        if r is not None:
            ob(c, 'message-passed-on', lab, r[1] == {k: (snap(s, x)) for k, x in msg.items()}, s, 'the message returned is %s instead of %s' % (txt(r[1]), txt(msg)))
            ob(c, 'target', lab, (r[2] or NONE) == val(t), s, 'the target returned is %s instead of %s' % (show(r[2] or NONE), show(val(t))))
        c.count('messages')


def txt(d):
    if isinstance(d, dict):
        return '{%s}' % ', '.join('%s: %s' % (k, show(v) if not isinstance(v, tuple) else v) for k, v in sorted(d.items()))
    return str(d)


class TrainPolicy(BiPolicy):
    phases = 1

    def intercept(self, w, f, args, kw, n, fi, st):
        if hook_name(f) == '_get_train_seq':
            st = st.copy()
            seq = [Tup([Hook('_train' if i == 0 else '_train%d' % (i + 1)), Hook('_stop' if i == 0 else '_stop%d' % (i + 1))]) for i in range(self.phases)]
            return [(st.alloc(HList(seq)), st)]
        if hook_name(f) == '_check_train_args':
            st = st.copy()
            st.add_event('checked', n, fi, args=tuple(args), kwargs=dict(kw))
            out = [(NONE, st)]
            if self.check_fails:
                out = [(Exc('TypeError', node=n, fi=fi), st)]
            return out
        return BiPolicy.intercept(self, w, f, args, kw, n, fi, st)
    check_fails = False


def trainable(c, sigs, results, fields=None, phases=1, check_fails=False):
    f = training(c)
    f.update(fields or {})
    node = Node(c, sigs, results, f)
    pol = TrainPolicy(sigs, results)
    pol.phases, pol.check_fails = phases, check_fails
    node.pol = pol
    node.w.policy = pol
    return node


def train(c, tier):
    msgs = list(messages())
    for si, sig in enumerate(SIGS):
        for ri, res in enumerate([None] + RESULTS):
            node = trainable(c, {'_train': sig, '_inverse': sig, '_other': sig}, {'_train': res, '_inverse': res, '_other': res})
            for mi, m in enumerate(msgs):
                if tier == 'quick' and (mi + ri + si) % 11:
                    continue
                for meth in ([None] if mi % 9 else [None, 'train', 'other']):
                    m2 = dict(m)
                    if meth:
                        m2['method'] = Const(meth)
                    case(c, node, 'train', m2, sig, res, meth, {None: '_train', 'train': '_train', 'inverse': '_inverse', 'other': '_other'}[meth])
                    if meth == 'other':
                        continue
                    for kind, v, s in node.run('train', [node.x], m2):
                        if kind == RETURN:
                            lab = 'train[%s,%s]' % ('+'.join(sig), names(m2))
                            ob(c, 'phase-started', lab, s.obj(node.me).fields['_train_phase_started'] == TRUE, s, 'training does not mark the phase as started')
                            ob(c, 'checked', lab, any(e.kind == 'checked' for e in s.trace), s, 'the training arguments are not checked')
    for m in (None, {'a': Tok('a0')}):
        node = trainable(c, {'_train': ('x', 'a')}, {'_train': None}, check_fails=True)
        for kind, v, s in node.run('train', [node.x], m):
            ob(c, 'arguments-refused', 'train[%s]' % names(m), kind == RAISE and exc_is(c.prog, v, ['BiNodeException']), s, 'training arguments that do not fit end in %s'
               % (v.name if kind == RAISE else 'a normal return'))
            ob(c, 'arguments-refused', 'train[%s]:state' % names(m), s.obj(node.me).fields['_train_phase_started'] == FALSE, s, 'refused data mark the phase as started')
    for meth in ('train', 'stop_training'):
        node = trainable(c, {'_train': ('x',), '_stop': ()}, {'_train': None}, {'_training': FALSE, '_train_phase': Const(1), '_train_phase_started': FALSE})
        for m in (None, {'z': Tok('z0')}):
            for kind, v, s in node.run(meth, [node.x] if meth == 'train' else [], m):
                ob(c, 'finished-refused', meth, kind == RAISE and exc_is(c.prog, v, ['TrainingFinishedException']), s, '%s of a trained node ends in %s'
                   % (meth, v.name if kind == RAISE else 'a normal return'))
    node = trainable(c, {'_train': ('x',), '_stop': ()}, {'_train': None})
    for m in (None, {'z': Tok('z0')}):
        for kind, v, s in node.run('stop_training', [], m):
            ob(c, 'finished-refused', 'stop_training[not started]', kind == RAISE and exc_is(c.prog, v, ['TrainingException']), s, 'stop_training before any training ends in %s'
               % (v.name if kind == RAISE else 'a normal return'))


STOPS = [None, (None, {'r': Tok('r1')}), ('y', {'r': Tok('r1'), 'z': Tok('z2')}), ('y', {'r': Tok('r1')}, 't2'), 'y']


def stop(c, tier):
    """closing a phase: arguments, stored results and the phase counter"""
    msgs = [None, {'z': Tok('z0')}, {'a': Tok('a0')}, {'me->a': Tok('a1'), 'a': Tok('a0')}, {'me->target': Const('t1'), 'z': Tok('z0')}, {'target': Const('t0')}]
    for sig in ((), ('a',), ('a', 'msg')):
        for res in STOPS:
            for m in msgs:
                for stored in (None, ({'s': Tok('s0'), 'z': Tok('s1')}, 't3'), ({'s': Tok('s0')}, None)):
                    for phases, phase in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1)):
                        if phases > 1 and (res is not None or m is not None and 'z' not in m) and tier == 'quick':
                            continue
                        stop_case(c, sig, res, m, stored, phases, phase)


def stop_case(c, sig, res, m, stored, phases, phase):
    lab = 'stop_training[%s,%s,%s,%s,%d/%d]' % ('+'.join(sig), names(m), 'stored' if stored else 'none', 'result' if res is not None else 'None', phase + 1, phases)
    nm = '_stop' if phase == 0 else '_stop%d' % (phase + 1)
    node = trainable(c, {nm: sig}, {nm: res}, {'_train_phase': Const(phase), '_train_phase_started': TRUE}, phases)
    st = node.st
    sr = None
    if stored:
        def mk(d, t):
            ref = st.alloc(HDict([(Const(k), v) for k, v in d.items()]))
            return Tup([ref, val(t)]), ref
        v, sr = mk(*stored)
        if phases > 1:
            other, _ = mk({'wrong': Tok('wrong')}, 'wrongt')
            vs = [other] * phases
            vs[phase] = v
            v = st.alloc(HList(vs))
        st.mut(node.me).fields['_stop_result'] = v
    target, method, args, rest = protocol(m, sig) if m else (None, None, {}, None)
    if stored:
        d = dict(stored[0])
        d.update(rest or {})
        rest = d
        if target is None:
            target = stored[1] and Tok(stored[1])
    for kind, v, s in node.run('stop_training', [], m):
        if not ob(c, 'works', lab, kind == RETURN, s, 'stop_training ends in %s' % (v.name if kind == RAISE else '')):
            continue
        evs = [e for e in s.trace if e.kind == 'algo']
        ob(c, 'method-selected', lab, [e.who for e in evs] == [nm], s, 'the closing steps called are %s instead of %s' % ([e.who for e in evs], nm))
        if len(evs) == 1:
            ob(c, 'arguments', lab, evs[0].kwargs == args and not evs[0].args, s, 'the closing step gets %s instead of %s' % (txt(evs[0].kwargs), txt(args)))
        f = s.obj(node.me).fields
        ok = f['_train_phase'] == Const(phase + 1) and f['_train_phase_started'] == FALSE and f['_training'] == (FALSE if phase + 1 == phases else TRUE)
        ob(c, 'phase-closed', lab, ok, s, 'after closing phase %d of %d: phase %s, started %s, training %s' % (phase + 1, phases, show(f['_train_phase']), show(f['_train_phase_started']), show(f['_training'])))
        if sr is not None:
            ob(c, 'stored-result-kept', lab, plain(s, sr) == stored[0], s, 'the stored stop result of the node is changed')
        y, msg, t = combine(res, rest, target)
        if isinstance(target, str):
            t = t
        r = unpack(s, v)
        ob(c, 'result', lab, r is not None and r[0] == val(y), s, 'the value returned is %s instead of %s' % (show(v), show(val(y))))
        if r is not None:
            ob(c, 'message-passed-on', lab, r[1] == msg, s, 'the message returned is %s instead of %s' % (txt(r[1]), txt(msg)))
            ob(c, 'target', lab, (r[2] or NONE) == val(t), s, 'the target returned is %s instead of %s' % (show(r[2] or NONE), show(val(t))))
        c.count('stop messages')


def run(c):
    execute(c, c.tier)
    train(c, c.tier)
    stop(c, c.tier)
    c.need('messages', 500)
    c.need('stop messages', 60)
