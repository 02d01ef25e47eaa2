"""Typestate product: node implementation x training-phase automaton.

The implementation is interpreted abstractly (sa.walker) on a node whose
extension hooks are arbitrary code (each may fail) and whose arguments are
tokens.  Every operation is applied in every reachable product state and the
outcome (exception class, hooks reached, their arguments, observers) compared
with the automaton of the documented protocol.
"""
import ast

from .model import AnalysisError, ClassInfo
from .proto import (Hook, Tok, TokenPolicy, array, exc_is, fields_key, hook_events,
                    hook_name, trace_lines)
from .walker import (Call, Const, Ctx, Exc, Ext, FALSE, Func, HDict, HList, NONE, Op,
                     RAISE, RETURN, Sym, TRUE, Tup, V, Walker, callee_name, cval,
                     is_const, show)

FINISHED = ('TrainingFinishedException',)
NOTTRAINED = ('TrainingException',)
NOTTRAINABLE = ('IsNotTrainableException',)
NOTINVERTIBLE = ('IsNotInvertibleException',)
NODEEXC = ('NodeException',)


class LifePolicy(TokenPolicy):
    while_bound = 5
    max_depth = 18

    def __init__(self, phases, invertible=True, online=False, ttype=None):
        self.phases = phases
        self.invertible = invertible
        self.online = online
        self.ttype = ttype

    def seq(self, st):
        items = []
        for k in range(self.phases):
            t = [Hook('train%d' % k), Hook('stop%d' % k)]
            if self.online:
                t.append(Hook('pexec%d' % k))
            items.append(Tup(t))
        return st.alloc(HList(items))

    def intercept(self, w, f, args, kw, n, fi, st):
        if f.tag == 'func':
            nm = f.k[1].name
            if nm == 'is_trainable':
                return [(Const(self.phases > 0), st)]
            if nm == 'is_invertible':
                return [(Const(self.invertible), st)]
            if nm == '_get_train_seq':
                st = st.copy()
                return [(self.seq(st), st)]
            if nm == '_get_supported_dtypes':
                st = st.copy()
                return [(st.alloc(HList([Tok('D'), Tok('E')])), st)]
            if nm == '_get_supported_training_types' and self.ttype:
                st = st.copy()
                return [(st.alloc(HList([Const(self.ttype)])), st)]
            if nm in ('_execute', '_inverse', '_label', '_prob', '_check_train_args',
                      '_check_params', '_sample_h', '_sample_v', '_energy', '_train', '_stop_training'):
                return w.call_opaque(Hook(nm), args, kw, n, Ctx(fi, None), st)
        if f.tag == 'ext' and f.k[1] == 'numpy.concatenate':
            st = st.copy()
            return [(self.concat(w, args, st), st)]
        return TokenPolicy.intercept(self, w, f, args, kw, n, fi, st)

    def concat(self, w, args, st):
        return Tok('xl')

    def iter_values(self, w, v, n, fi, st):
        if v.tag == 'item' and self.online:
            return [V(('item', v, Const(0))), V(('item', v, Const(1)))]
        return None


class Life(object):
    """one class, one number of phases"""

    def __init__(self, check, ci, kind, phases, depth=6, invertible=True, prefix='', rules=None,
                 ttype=None):
        self.c = check
        self.prog = check.prog
        self.ci = ci
        self.kind = kind
        self.P = phases
        self.depth = depth
        self.inv = invertible
        self.rules = rules
        self.states = 0
        self.transitions = 0
        self.ttype = ttype
        self.policy = LifePolicy(phases, invertible, kind == 'online', ttype)
        self.w = Walker(self.prog, self.policy)
        self.tag = '%s[%d phases%s]' % (ci.name, phases, '' if invertible else ', not invertible')
        if ttype:
            self.tag += '[%s]' % ttype

    def obl(self, rule, op, ok, res=None, msg=''):
        if self.rules is not None and rule not in self.rules:
            return
        loc, path = '', None
        if res is not None:
            kind, val, st, n0 = res
            path = trace_lines(st, n0)
            evs = st.trace[n0:]
            for e in reversed(evs):
                if e.kind in ('call', 'store', 'raised', 'branch'):
                    loc = e.loc()
                    break
            if not loc:
                for e in evs:
                    if e.kind == 'enter':
                        loc = e.callee.loc()
        self.c.obl(rule, '%s.%s' % (self.tag, op), ok, loc, msg, path)

    # ------------------------------------------------------------- running
    def op(self, st, me, name, args=(), kwargs=None):
        s = st.copy()
        n0 = len(s.trace)
        out = []
        for k, v, s1 in self.w.run_method(s, me, name, args, kwargs):
            out.append((k, v, s1, n0))
        return out

    def observe(self, st, me, name):
        vals = set()
        for k, v, s1 in self.w.run_method(st.copy(), me, name):
            vals.add(show(v) if k == RETURN else 'raises ' + v.name)
        return vals

    def start(self):
        st = self.w.new_state()
        me = self.w.new_obj(st, self.ci, 'node')
        base_init = None
        for k in self.prog.mro(self.ci):
            if isinstance(k, ClassInfo) and k.name in ('Node', 'OnlineNode', 'BiNode') and '__init__' in k.methods:
                base_init = k.methods['__init__']
                break
        if base_init is None:
            raise AnalysisError('no node constructor found for %s' % self.ci.name)
        res = self.w.run_func(st, base_init, [], {}, me)
        outs = []
        for k, v, s in res:
            if k == RAISE:
                self.c.obl('construct', self.tag, False, base_init.loc(),
                           'constructing a node without arguments raises %s' % v.name, trace_lines(s))
                continue
            outs.append(s)
        return outs, me

    def explore(self):
        outs, me = self.start()
        seen = {}
        todo = [(s, (0, False), 0) for s in outs]
        while todo:
            st, spec, d = todo.pop(0)
            key = (spec, fields_key(st, me))
            if key in seen:
                continue
            if self.kind == 'online' and sum(1 for k in seen if k[0] == spec) >= 6:
                continue
            seen[key] = True
            self.states += 1
            st.trace = ()
            self.check_observers(st, me, spec)
            if d >= self.depth:
                continue
            for s2, spec2 in self.step_all(st, me, spec):
                todo.append((s2, spec2, d + 1))
        self.c.count('abstract states', self.states)
        self.c.count('abstract transitions', self.transitions)
        self.c.visits(self.w)

    def check_observers(self, st, me, spec):
        p, started = spec
        P = self.P
        exp = {'is_training': Const(p < P)}
        if P > 0:
            exp['get_current_train_phase'] = Const(p)
        exp['get_remaining_train_phase'] = Const(P - p if P else 0)
        for nm, v in exp.items():
            got = self.observe(st, me, nm)
            ok = got == {show(v)}
            if self.rules is None or 'observers' in self.rules:
                self.c.obl('observers', '%s.%s' % (self.tag, nm), ok,
                           self.prog.method(self.ci, nm).loc(),
                           '%s() gives %s in state phase=%d started=%s, the protocol says %s'
                           % (nm, sorted(got), p, started, show(v)))

    # ------------------------------------------------------------ one step
    def step_all(self, st, me, spec):
        out = []
        o = st.obj(me)
        good = array(st, 'x', cols=Tok('A'), dtype=Tok('D'))
        cast = array(st, 'xe', cols=Tok('A'), dtype=Tok('E'))
        out += self.do_train(st, me, spec, good, 'x')
        out += self.do_stop(st, me, spec)
        out += self.do_execute(st, me, spec, good)
        self.do_inverse(st, me, spec)
        self.do_bad(st, me, spec)
        self.do_cast(st, me, spec, cast)
        return out

    def arg_ok(self, v, x):
        """hook argument is the checked input in the node's own dtype"""
        return v == Tok(x)

    def expected_train_hooks(self, spec):
        if self.kind == 'online':
            hs = []
            for k in range(self.P):
                hs += ['train%d' % k, 'pexec%d' % k]
            return hs
        return ['train%d' % spec[0]]

    def core(self, hooks):
        return [h for h in hooks if h[0] not in ('_check_train_args', '_check_params')]

    def do_train(self, st, me, spec, x, xname):
        p, started = spec
        P = self.P
        nxt = []
        for r in self.op(st, me, 'train', [x]):
            kind, val, s, n0 = r
            self.transitions += 1
            hooks = hook_events(s, n0)
            core = self.core(hooks)
            where = 'train@phase%d%s' % (p, '+' if started else '')
            if P == 0 or p >= P:
                want = NOTTRAINABLE if P == 0 else FINISHED
                ok = kind == RAISE and exc_is(self.prog, val, want) and not core
                self.obl('refuse', where, ok, r, 'train() must raise %s before any algorithm code runs, got %s after hooks %s'
                         % (want[0], self.outc(kind, val), [h[0] for h in hooks]))
                if kind == RAISE:
                    self.unchanged(st, s, me, where, r)
                continue
            failed = [h for h in hooks if h[3]]
            if failed:
                f = failed[-1]
                ok = kind == RAISE and (val.origin is not None and hook_name(val.origin) == f[0])
                if self.kind == 'binode' and f[0] == '_check_train_args':
                    ok = kind == RAISE
                self.obl('propagate', where, ok, r, 'the failure of %s is not passed on (%s)' % (f[0], self.outc(kind, val)))
                self.obl('phase', where + ':failed', self.phase_is(s, me, spec), r,
                         'a failing %s changes the training phase' % f[0])
                if f[0] in ('_check_train_args', '_check_params'):
                    self.obl('checkfirst', where, not core, r, 'algorithm code runs before %s' % f[0])
                continue
            names = [h[0] for h in core]
            if self.kind == 'online' and self.ttype == 'incremental':
                want = self.expected_train_hooks(spec)
                n = len(names) // max(1, len(want))
                ok = kind == RETURN and names == want * n
                self.obl('hooks', where, ok, r, 'per-sample training must run %s in order, got %s' % (want, names))
            else:
                want = self.expected_train_hooks(spec)
                ok = kind == RETURN and names == want
                self.obl('hooks', where, ok, r, 'train() must run exactly %s, got %s (%s)' % (want, names, self.outc(kind, val)))
            if ok and core and self.ttype != 'incremental':
                self.obl('input', where, len(core[0][1]) == 1 and self.arg_ok(core[0][1][0], xname), r,
                         'the training hook gets %s instead of the input' % [show(a) for a in core[0][1]])
                if self.kind == 'online':
                    prev = core[0][1][0]
                    for h in core:
                        self.obl('chain', where, len(h[1]) == 1 and h[1][0] == prev, r,
                                 '%s gets %s, not the output of the phase before it' % (h[0], [show(a) for a in h[1]]))
                        if h[0].startswith('pexec'):
                            prev = h[4].data['result']
            names_all = [h[0] for h in hooks]
            if kind == RETURN and core:
                self.obl('checkfirst', where, '_check_train_args' in names_all and
                         names_all.index('_check_train_args') < names_all.index(core[0][0]), r,
                         'the training arguments are not checked before the training hook')
            if kind == RETURN:
                nxt.append((s, (p, True)))
        return nxt

    def do_stop(self, st, me, spec):
        p, started = spec
        P = self.P
        nxt = []
        for r in self.op(st, me, 'stop_training', []):
            kind, val, s, n0 = r
            self.transitions += 1
            hooks = hook_events(s, n0)
            where = 'stop_training@phase%d%s' % (p, '+' if started else '')
            if P == 0 or p >= P or not started:
                want = FINISHED if (P == 0 or p >= P) else NOTTRAINED
                ok = kind == RAISE and exc_is(self.prog, val, want) and not hooks
                if want is NOTTRAINED and kind == RAISE:
                    ok = ok and not exc_is(self.prog, val, FINISHED)
                self.obl('refuse', where, ok, r, 'stop_training() must raise %s before any algorithm code, got %s after hooks %s'
                         % (want[0], self.outc(kind, val), [h[0] for h in hooks]))
                if kind == RAISE:
                    self.unchanged(st, s, me, where, r)
                continue
            failed = [h for h in hooks if h[3]]
            if failed:
                self.obl('propagate', where, kind == RAISE and hook_name(val.origin) == failed[-1][0], r,
                         'the failure of %s is not passed on (%s)' % (failed[-1][0], self.outc(kind, val)))
                self.obl('phase', where + ':failed', self.phase_is(s, me, spec), r,
                         'the phase is advanced although its closing step failed')
                # training may be resumed: the closing step can be called again
                if kind == RAISE:
                    self.retry(s, me, spec, where)
                continue
            want = ['stop%d' % k for k in range(P)] if self.kind == 'online' else ['stop%d' % p]
            names = [h[0] for h in hooks]
            ok = kind == RETURN and names == want
            self.obl('hooks', where, ok, r, 'stop_training() must run exactly %s, got %s (%s)' % (want, names, self.outc(kind, val)))
            p2 = P if self.kind == 'online' else p + 1
            self.obl('phase', where, kind == RETURN and self.phase_is(s, me, (p2, False)), r,
                     'after closing phase %d the node must be in phase %d' % (p, p2))
            if kind == RETURN:
                nxt.append((s, (p2, False)))
        return nxt

    def retry(self, s, me, spec, where):
        s = s.copy()
        for r in self.op(s, me, 'stop_training', []):
            kind, val, s2, n0 = r
            hooks = hook_events(s2, n0)
            self.obl('retry', where, bool(hooks), r,
                     'after a failed closing step the phase can no longer be closed (%s)' % self.outc(kind, val))

    def exec_plan(self, spec):
        """hooks expected before _execute and the refusal, if any"""
        p, started = spec
        P = self.P
        if self.kind == 'online':
            if P and p == 0 and not started:
                return self.expected_train_hooks((0, False)), None, (0, True)
            return [], None, (p, started)
        if P == 0 or p >= P:
            return [], None, (p, started)
        if p == 0 and not started:
            hs = []
            for k in range(P):
                hs += ['train%d' % k, 'stop%d' % k]
            return hs, None, (P, False)
        if not started:
            return [], NOTTRAINED, (p, started)
        if p == P - 1:
            return ['stop%d' % p], None, (P, False)
        return ['stop%d' % p], NOTTRAINED, (p + 1, False)

    def do_execute(self, st, me, spec, x):
        nxt = []
        p, started = spec
        plan, refusal, spec2 = self.exec_plan(spec)
        where = 'execute@phase%d%s' % (p, '+' if started else '')
        for r in self.op(st, me, 'execute', [x]):
            kind, val, s, n0 = r
            self.transitions += 1
            hooks = self.core(hook_events(s, n0))
            allh = hook_events(s, n0)
            failed = [h for h in allh if h[3]]
            names = [h[0] for h in hooks]
            if failed:
                f = failed[-1]
                self.obl('propagate', where, kind == RAISE and (self.kind == 'binode' and f[0] == '_check_train_args' or
                         hook_name(val.origin) == f[0]), r, 'the failure of %s is not passed on (%s)' % (f[0], self.outc(kind, val)))
                if f[0] != '_execute':
                    self.obl('refuse', where + ':failed', '_execute' not in names, r, 'the node executes although %s failed' % f[0])
                continue
            if self.ttype == 'incremental' and plan:
                ok = kind == RETURN and names[-1:] == ['_execute'] and names[:-1] == plan * ((len(names) - 1) // len(plan))
                self.obl('hooks', where, ok, r, 'execute() must first train (%s), got %s' % (plan, names))
            elif refusal:
                ok = kind == RAISE and exc_is(self.prog, val, refusal) and names == plan
                self.obl('refuse', where, ok, r, 'execute() must raise %s with hooks %s, got %s after %s'
                         % (refusal[0], plan, self.outc(kind, val), names))
            else:
                ok = kind == RETURN and names == plan + ['_execute']
                self.obl('hooks', where, ok, r, 'execute() must run %s, got %s (%s)' % (plan + ['_execute'], names, self.outc(kind, val)))
                if ok:
                    self.obl('input', where, len(hooks[-1][1]) == 1 and self.arg_ok(hooks[-1][1][0], 'x'), r,
                             '_execute gets %s instead of the checked input' % [show(a) for a in hooks[-1][1]])
                    if plan and plan[0] == 'train0':
                        self.obl('input', where, self.arg_ok(hooks[0][1][0], 'x'), r, 'implicit training does not get the input')
                    self.obl('result', where, val == hooks[-1][4].data['result'], r, 'execute() does not return the result of _execute')
            if kind == RETURN or refusal:
                self.obl('phase', where, self.phase_is(s, me, spec2), r, 'execute() leaves the node in the wrong phase')
            if kind == RETURN or (refusal and names == plan and plan):
                nxt.append((s, spec2))
        return nxt

    def do_inverse(self, st, me, spec):
        p, started = spec
        P = self.P
        s0 = st.copy()
        out = None
        for k, v, s1 in self.w.run_method(s0.copy(), me, 'get_output_dim'):
            out = v
        where = 'inverse@phase%d%s' % (p, '+' if started else '')
        known_out = out is not None and not (is_const(out) and cval(out) is None)
        inp = NONE
        for k, v, s1 in self.w.run_method(s0.copy(), me, 'get_input_dim'):
            inp = v
        known_in = not (is_const(inp) and cval(inp) is None)
        cols = out if known_out else (inp if known_in else Tok('A'))
        y = array(s0, 'y', cols=cols, dtype=Tok('D'))
        for r in self.op(s0, me, 'inverse', [y]):
            kind, val, s, n0 = r
            self.transitions += 1
            hooks = hook_events(s, n0)
            names = [h[0] for h in hooks]
            if not self.inv:
                ok = kind == RAISE and exc_is(self.prog, val, NOTINVERTIBLE) and not names
                self.obl('refuse', where, ok, r, 'a node that is not invertible must refuse inverse() before doing anything, got %s after %s'
                         % (self.outc(kind, val), names))
                if kind == RAISE:
                    self.unchanged(st, s, me, where, r)
                continue
            failed = [h for h in hooks if h[3]]
            if failed:
                self.obl('propagate', where, kind == RAISE and hook_name(val.origin) == failed[-1][0], r,
                         'the failure of %s is not passed on' % failed[-1][0])
                if failed[-1][0] != '_inverse':
                    self.obl('refuse', where + ':failed', '_inverse' not in names, r, 'the node inverts although %s failed' % failed[-1][0])
                continue
            plan, refusal = [], None
            if self.kind != 'online' and P and p < P:
                if not started:
                    refusal = NOTTRAINED
                else:
                    plan = ['stop%d' % p]
                    if p < P - 1:
                        refusal = NOTTRAINED
            if refusal is None and not known_out and not known_in:
                refusal = NODEEXC
            if refusal:
                ok = kind == RAISE and exc_is(self.prog, val, refusal) and names == plan
                self.obl('refuse', where, ok, r, 'inverse() must raise %s with hooks %s, got %s after %s'
                         % (refusal[0], plan, self.outc(kind, val), names))
            else:
                if not known_out and kind == RAISE and exc_is(self.prog, val, NODEEXC) and names == plan and \
                        self.prog.method(self.ci, '_pre_inversion_checks').cls.name not in ('Node', 'OnlineNode'):
                    continue     # a class may insist on a known output dimension
                ok = kind == RETURN and names == plan + ['_inverse']
                self.obl('hooks', where, ok, r, 'inverse() must run %s, got %s (%s)' % (plan + ['_inverse'], names, self.outc(kind, val)))
                if ok:
                    self.obl('input', where, hooks[-1][1] == (Tok('y'),), r, '_inverse gets %s' % [show(a) for a in hooks[-1][1]])
                    self.obl('result', where, val == hooks[-1][4].data['result'], r, 'inverse() does not return the result of _inverse')

    def do_bad(self, st, me, spec):
        """input of the wrong rank, width or length never reaches algorithm code"""
        p, started = spec
        P = self.P
        idim = None
        for k, v, s1 in self.w.run_method(st.copy(), me, 'get_input_dim'):
            idim = v
        known = not (is_const(idim) and cval(idim) is None)
        variants = [('rank1', dict(ndim=1, cols=Tok('A'))), ('rank3', dict(ndim=3, cols=Tok('A'))),
                    ('empty', dict(ndim=2, rows=Const(0), cols=Tok('A')))]
        if known:
            variants.append(('width', dict(ndim=2, cols=Tok('B'))))
        for vname, kw in variants:
            s0 = st.copy()
            x = array(s0, 'bad', dtype=Tok('D'), **kw)
            ops = ['execute']
            if P and p < P:
                ops.append('train')
            for opn in ops:
                where = '%s(%s)@phase%d%s' % (opn, vname, p, '+' if started else '')
                plan, refusal, _ = self.exec_plan(spec)
                if opn == 'train' or (plan and plan[0] == 'train0'):
                    plan = []
                if refusal and opn == 'execute':
                    continue
                for r in self.op(s0, me, opn, [x]):
                    kind, val, s, n0 = r
                    self.transitions += 1
                    hooks = self.core(hook_events(s, n0))
                    if any(h[3] for h in hook_events(s, n0)):
                        continue
                    names = [h[0] for h in hooks]
                    ok = kind == RAISE and exc_is(self.prog, val, NODEEXC) and names == plan
                    self.obl('badinput', where, ok, r, '%s() with input of %s must be refused with a NodeException before algorithm code, got %s after %s'
                             % (opn, {'rank1': 'rank 1', 'rank3': 'rank 3', 'empty': 'no rows', 'width': 'the wrong width'}[vname],
                                self.outc(kind, val), names))
                    if kind == RAISE and opn == 'train':
                        self.obl('phase', where, self.phase_is(s, me, spec), r, 'a refused train() changes the phase')
                        # a refused first chunk does not count as training
                        if not started:
                            for r2 in self.op(s, me, 'stop_training', []):
                                self.obl('badinput-notstarted', where, r2[0] == RAISE and exc_is(self.prog, r2[1], NOTTRAINED)
                                         and not hook_events(r2[2], r2[3]), r2,
                                         'after a refused first chunk the phase can be closed as if it had been trained')
        if self.inv and not (P and p < P):
            odim = None
            for k, v, s1 in self.w.run_method(st.copy(), me, 'get_output_dim'):
                odim = v
            kout = not (is_const(odim) and cval(odim) is None)
            vs = [('rank1', dict(ndim=1, cols=odim if kout else Tok('A'))), ('rank3', dict(ndim=3, cols=odim if kout else Tok('A')))]
            if kout:
                vs.append(('width', dict(ndim=2, cols=Tok('B'))))
            for vname, kw in vs:
                s0 = st.copy()
                y = array(s0, 'bady', dtype=Tok('D'), **kw)
                where = 'inverse(%s)@phase%d%s' % (vname, p, '+' if started else '')
                for r in self.op(s0, me, 'inverse', [y]):
                    kind, val, s, n0 = r
                    names = [h[0] for h in hook_events(s, n0)]
                    ok = kind == RAISE and exc_is(self.prog, val, NODEEXC) and not names
                    self.obl('badinput', where, ok, r, 'inverse() with %s must be refused before algorithm code, got %s after %s'
                             % (vname, self.outc(kind, val), names))

    def do_cast(self, st, me, spec, x):
        """input of another supported dtype is cast to the node's dtype"""
        p, started = spec
        dt = None
        for k, v, s1 in self.w.run_method(st.copy(), me, 'get_dtype'):
            dt = v
        if dt != Tok('D'):
            return
        ops = ['execute'] + (['train'] if self.P and p < self.P else [])
        for opn in ops:
            if opn == 'execute' and self.exec_plan(spec)[1]:
                continue
            if self.ttype == 'incremental' and opn == 'train':
                continue
            where = '%s(cast)@phase%d%s' % (opn, p, '+' if started else '')
            for r in self.op(st, me, opn, [x]):
                kind, val, s, n0 = r
                hooks = self.core(hook_events(s, n0))
                if any(h[3] for h in hook_events(s, n0)) or kind == RAISE:
                    continue
                h = hooks[-1] if opn == 'execute' else hooks[0]
                a = h[1][0] if h[1] else None
                ok = a is not None and is_cast(a, Tok('xe'), Tok('D'))
                self.obl('cast', where, ok, r, '%s gets %s, not the input cast to the dtype of the node' % (h[0], show(a) if a is not None else None))
        if self.inv and not (self.P and p < self.P):
            odim = None
            for k, v, s1 in self.w.run_method(st.copy(), me, 'get_output_dim'):
                odim = v
            if not (is_const(odim) and cval(odim) is None):
                s0 = st.copy()
                y = array(s0, 'ye', cols=odim, dtype=Tok('E'))
                for r in self.op(s0, me, 'inverse', [y]):
                    kind, val, s, n0 = r
                    hooks = hook_events(s, n0)
                    if kind == RAISE:
                        continue
                    a = hooks[-1][1][0]
                    self.obl('cast', 'inverse(cast)@phase%d' % p, is_cast(a, Tok('ye'), Tok('D')), r,
                             '_inverse gets %s, not the input cast to the dtype of the node' % show(a))

    # ------------------------------------------------------------- helpers
    def outc(self, kind, val):
        return 'a return' if kind == RETURN else 'exception %s' % val.name

    def phase_is(self, st, me, spec):
        p, _ = spec
        P = self.P
        if self.observe(st, me, 'is_training') != {show(Const(p < P))}:
            return False
        if P and self.observe(st, me, 'get_current_train_phase') != {show(Const(p))}:
            return False
        return True

    def unchanged(self, st, s, me, where, r):
        a, b = st.obj(me).fields, s.obj(me).fields
        diff = [k for k in b if k in a and a[k] != b[k] and not (s.obj(b[k]) is not None)]
        stores = [e for e in s.trace[r[3]:] if e.kind == 'store' and e.base == me]
        diff2 = sorted({e.name for e in stores if a.get(e.name) != e.value})
        self.obl('refuse-unchanged', where, not diff and not diff2, r,
                 'a refused call changes %s' % sorted(set(diff) | set(diff2)))


def is_cast(v, x, dtype):
    if v.tag == 'call' and v.k[1].tag == 'attr' and v.k[1].k[2] == 'astype':
        return v.k[1].k[1] == x and v.k[2][:1] == (dtype,)
    if v.tag == 'call' and v.k[1].tag == 'ext' and v.k[1].k[1] in ('numpy.asarray', 'numpy.array', 'numpy.asanyarray'):
        kw = dict(v.k[3])
        return v.k[2][:1] == (x,) and (v.k[2][1:2] == (dtype,) or kw.get('dtype') == dtype)
    return False


LIFE_METHODS = ('train', 'stop_training', 'execute', 'inverse', '__call__', 'is_training',
                'get_current_train_phase', 'get_remaining_train_phase',
                'has_multiple_training_phases', '_if_training_stop_training',
                '_pre_inversion_checks')
INPUT_METHODS = ('_pre_execution_checks', '_check_input', '_refcast')
# classes whose public signature or input shape differs: analysed by their own rules
SPECIAL = ('RBMWithLabelsNode', 'CacheExecuteExtensionNode')


def kind_of(prog, ci):
    names = [k.name for k in prog.mro(ci) if isinstance(k, ClassInfo)]
    if 'OnlineNode' in names:
        return 'online'
    if 'BiNode' in names:
        return 'binode'
    return 'node'


def lifecycle_classes(prog):
    """base protocol classes and every class that redefines a part of the protocol"""
    node = prog.find_class('mdp.signal_node.Node')
    out = [node, prog.find_class('mdp.signal_node.PreserveDimNode'),
           prog.find_class('mdp.signal_node_online.OnlineNode'),
           prog.find_class('mdp.signal_node_online.PreserveDimOnlineNode'),
           prog.find_class('bimdp.binode.BiNode'), prog.find_class('bimdp.binode.PreserveDimBiNode')]
    own = ('Node', 'OnlineNode', 'BiNode')
    for c in prog.subclasses(node):
        if c in out or c.name in SPECIAL or is_extension_class(prog, c):
            continue
        if any(m in c.methods for m in LIFE_METHODS):
            out.append(c)
    return out


def is_extension_class(prog, c):
    for k in prog.mro(c):
        n = k.name if isinstance(k, ClassInfo) else k
        if n.rpartition('.')[2] == 'ExtensionNode':
            return True
    return False


def run_lifecycle(check, rules, thorough=False):
    prog = check.prog
    classes = lifecycle_classes(prog)
    for ci in classes:
        kind = kind_of(prog, ci)
        for P in ((0, 1, 2, 3, 4) if thorough else (0, 1, 2, 3)):
            for inv in (True, False):
                if not inv and P == 3 and not thorough:
                    continue
                for tt in (('batch', 'incremental') if kind == 'online' else (None,)):
                    Life(check, ci, kind, P, depth=2 * P + 3, invertible=inv, rules=rules, ttype=tt).explore()
        check.count('protocol classes')
    check.need('protocol classes', 6)
    run_entries(check, rules)


class Entry(Life):
    """another public entry point with the protocol of execute()/inverse()"""

    def __init__(self, check, ci, P, method, args, hook, want_arg, rules, like='execute', kind='node', nargs=None):
        Life.__init__(self, check, ci, kind, P, rules=rules)
        self.method, self.args, self.hook, self.want_arg, self.like = method, args, hook, want_arg, like
        self.tag = '%s.%s[%d phases]' % (ci.name, method, P)
        self.train_args = nargs or 1

    def step_all(self, st, me, spec):
        p, started = spec
        P = self.P
        out = []
        xs = {}
        for nm in ('x', 'v', 'l', 'h', 'xl'):
            xs[nm] = array(st, nm, cols=Tok('A'), dtype=Tok('D'))
        targs = [xs['x']] if self.train_args == 1 else [xs['v'], xs['l']]
        args = [xs[a] for a in self.args]
        for k, v, s, n0 in self.op(st, me, 'train', targs):
            if k == RETURN and not any(h[3] for h in hook_events(s, n0)):
                out.append((s, (p, True)))
        for k, v, s, n0 in self.op(st, me, 'stop_training', []):
            if k == RETURN and not any(h[3] for h in hook_events(s, n0)):
                out.append((s, (p + 1, False)))
        plan, refusal, spec2 = self.exec_plan(spec)
        if self.like == 'inverse':
            plan, refusal, spec2 = [], None, spec
            if P and p < P:
                if not started:
                    refusal = NOTTRAINED
                else:
                    plan = ['stop%d' % p]
                    refusal = NOTTRAINED if p < P - 1 else None
        if self.like == 'train':
            plan, refusal = [], (None if p < P else FINISHED)
        where = '%s@phase%d%s' % (self.method, p, '+' if started else '')
        hk = self.hook if self.like != 'train' else 'train%d' % p
        odim = None
        for r in self.op(st, me, self.method, args):
            kind, val, s, n0 = r
            self.transitions += 1
            allh = hook_events(s, n0)
            hooks = self.core(allh)
            names = [h[0] for h in hooks]
            failed = [h for h in allh if h[3]]
            if failed:
                self.obl('propagate', where, kind == RAISE and hook_name(val.origin) == failed[-1][0], r,
                         'the failure of %s is not passed on' % failed[-1][0])
                continue
            if refusal:
                self.obl('refuse', where, kind == RAISE and exc_is(self.prog, val, refusal) and names == plan, r,
                         '%s() must raise %s with hooks %s, got %s after %s' % (self.method, refusal[0], plan, self.outc(kind, val), names))
                continue
            if self.like == 'inverse' and kind == RAISE and exc_is(self.prog, val, NODEEXC) and hk not in names:
                continue        # dimensions not known yet
            ok = kind == RETURN and names == plan + [hk]
            self.obl('hooks', where, ok, r, '%s() must run %s, got %s (%s)' % (self.method, plan + [hk], names, self.outc(kind, val)))
            if ok:
                a = hooks[-1][1]
                self.obl('input', where, a and a[0] == Tok(self.want_arg), r, '%s gets %s' % (hk, [show(q) for q in a]))
                self.obl('phase', where, self.phase_is(s, me, spec2 if self.like != 'train' else (p, True)), r,
                         '%s() leaves the node in the wrong phase' % self.method)
        if self.like != 'inverse' and not refusal:
            s0 = st.copy()
            bad = {nm: array(s0, nm + 'bad', ndim=1, cols=Tok('A'), dtype=Tok('D')) for nm in self.args}
            s0.notes[('ovr', Tok('xl'), 'ndim')] = Const(1)
            for r in self.op(s0, me, self.method, [bad[a] for a in self.args]):
                kind, val, s, n0 = r
                names = [h[0] for h in self.core(hook_events(s, n0))]
                if any(h[3] for h in hook_events(s, n0)):
                    continue
                self.obl('badinput', where, kind == RAISE and exc_is(self.prog, val, NODEEXC) and hk not in names, r,
                         '%s() with input of rank 1 must be refused before algorithm code, got %s after %s'
                         % (self.method, self.outc(kind, val), names))
        return out

    def explore(self):
        outs, me = self.start()
        for s in outs:
            s.mut(me).fields.update({'execute_method': NONE})
        seen = set()
        todo = [(s, (0, False), 0) for s in outs]
        while todo:
            st, spec, d = todo.pop(0)
            key = (spec, fields_key(st, me))
            if key in seen or d > 2 * self.P + 2:
                continue
            seen.add(key)
            st.trace = ()
            for s2, spec2 in self.step_all(st, me, spec):
                todo.append((s2, spec2, d + 1))
        self.c.count('entry points')
        self.c.count('abstract transitions', self.transitions)
        self.c.visits(self.w)


def run_entries(check, rules):
    prog = check.prog
    cn = prog.find_class('mdp.classifier_node.ClassifierNode')
    for P in (0, 1, 2):
        Entry(check, cn, P, 'label', ['x'], '_label', 'x', rules).explore()
        Entry(check, cn, P, 'prob', ['x'], '_prob', 'x', rules).explore()
    rbm = prog.find_class('mdp.nodes.rbm_nodes.RBMNode')
    Entry(check, rbm, 1, 'sample_h', ['x'], '_sample_h', 'x', rules).explore()
    Entry(check, rbm, 1, 'sample_v', ['h'], '_sample_v', 'h', rules, like='inverse').explore()
    rl = prog.find_class('mdp.nodes.rbm_nodes.RBMWithLabelsNode')
    Entry(check, rl, 1, 'train', ['v', 'l'], None, 'xl', rules, like='train', nargs=2).explore()
    # sample_v of the labelled machine unpacks four values and needs no extra rule
    check.need('entry points', 8)
