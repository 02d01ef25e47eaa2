"""Cooperative concurrency model for the task schedulers.

The scheduler's own code is interpreted abstractly.  The lock is a typestate
(held / free), a started thread is a pending call of its target that runs at a
point where the lock is free (while somebody sleeps, or between operations),
tasks are tokens.  Everything that is not scheduler code (task callables,
fork, pickling, result containers, thread start, slave pipes) may fail.
"""
import ast

from .proto import Tok, TokenPolicy, is_tok
from .walker import (Attr, Const, Exc, FALSE, Func, HList, HObj, NONE, Op, RAISE, RETURN, TRUE, Tup, V, is_const, show)

LOCK = Tok('lock')
CONTAINER = Tok('container')


def text(v):
    return v.k[1][1:] if is_tok(v) else show(v)


class SchedPolicy(TokenPolicy):
    max_depth = 20
    while_bound = 4
    fails = ('fork', 'task', 'copy', 'add', 'collect', 'thread', 'pipe', 'setup')

    def __init__(self, prog, max_fails=1, lifo=False, fails=None):
        self.prog = prog
        self.max_fails = max_fails
        self.lifo = lifo
        if fails is not None:
            self.fails = fails

    # ------------------------------------------------------------- helpers
    def ev(self, st, n, fi, op, **kw):
        st = st.copy()
        st.add_event('sched', n, fi, op=op, held=self.held(st), where=st.notes.get('thread'), **kw)
        return st

    @staticmethod
    def held(st):
        return bool(st.notes.get('lock'))

    def failing(self, st, n, fi, op, exc='Any', **kw):
        if op not in self.fails or st.notes.get('fails', 0) >= self.max_fails:
            return []
        s = self.ev(st, n, fi, op, failed=True, **kw)
        s.notes['fails'] = s.notes.get('fails', 0) + 1
        return [(Exc(exc, None, n, fi, origin=Op('failing', Const(op))), s)]

    def run_pending(self, w, st, n, fi):
        """let the started threads run to their end; every entry of the result is a state"""
        states = [st]
        done = []
        while states:
            s = states.pop()
            pend = s.notes.get('pending', ())
            if not pend:
                done.append(s)
                continue
            i = len(pend) - 1 if self.lifo else 0
            target, args = pend[i]
            states.extend(self.run_thread(w, s, i, n, fi))
        return done

    def run_thread(self, w, st, i, n, fi):
        s = st.copy()
        pend = s.notes.get('pending', ())
        target, args = pend[i]
        s.notes['pending'] = pend[:i] + pend[i + 1:]
        s.notes['running'] = s.notes.get('running', 0) + 1
        outer = s.notes.get('thread')
        s.notes['thread'] = show(args)
        s.add_event('sched', n, fi, op='thread-runs', held=False, where=None, args=args)
        out = []
        stack = s.stack
        s.stack = ()
        if target.tag == 'func':
            res = w.call_func(target.k[1], target.k[2], target.k[3], list(args.k[1:]), {}, n, fi, s)
        else:
            res = w.call(target, list(args.k[1:]), {}, n, _Ctx(fi), s)
        for v, s2 in res:
            s2 = s2.copy()
            s2.stack = stack
            s2.add_event('sched', n, fi, op='thread-ends', held=self.held(s2), where=None,
                         failed=isinstance(v, Exc), exc=v.name if isinstance(v, Exc) else None)
            s2.notes['thread'] = outer
            s2.notes['running'] -= 1
            if self.held(s2):
                s2.notes['lock'] = 0       # reported by the caller; go on
                s2.notes['leaked'] = True
            out.append(s2)
        return out

    # ----------------------------------------------------------- semantics
    def decide(self, w, t, st):
        if t.tag == 'op' and t.k[1] == 'hasattr' and is_tok(t.k[2]):
            if t.k[3] == Const('fork'):
                return text(t.k[2]).startswith('c')
        return TokenPolicy.decide(self, w, t, st)

    def on_store(self, w, base, name, value, n, fi, st):
        o = st.obj(base)
        if isinstance(o, HObj) and o.name == 'sched' and not st.notes.get('setup'):
            st.add_event('sched', n, fi, op='write', held=self.held(st), where=st.notes.get('thread'), name=name)

    def intercept(self, w, f, args, kw, n, fi, st):
        if f.tag == 'ext':
            name = f.k[1]
            if name in ('threading.Lock', 'threading.RLock', '_thread.allocate_lock'):
                return [(LOCK, st)]
            if name == 'threading.Thread':
                target = kw.get('target', args[1] if len(args) > 1 else NONE)
                a = kw.get('args', args[3] if len(args) > 3 else Tup([]))
                if a.tag != 'tup':
                    o = st.obj(a)
                    a = Tup(o.items) if isinstance(o, HList) else Tup([a])
                return [(V(('thread', target, a)), st)]
            if name == 'time.sleep':
                s = self.ev(st, n, fi, 'sleep')
                if self.held(s):
                    return [(NONE, s)]
                if not s.notes.get('pending') and not s.notes.get('retry'):
                    s = self.ev(s, n, fi, 'stuck')
                    return [(Exc('Stuck', None, n, fi), s)]
                s.notes['retry'] = False
                if not s.notes.get('pending'):
                    return [(NONE, s)]
                i = len(s.notes['pending']) - 1 if self.lifo else 0
                out = [(NONE, s2) for s2 in self.run_thread(w, s, i, n, fi)]
                if not s.notes.get('idle'):
                    # it may also happen that no thread gets ready in the meantime
                    s = s.copy()
                    s.notes['idle'] = True
                    out.append((NONE, s))
                return out
            if name in ('pickle.dumps', 'copy.deepcopy', 'copy.copy', 'pickle.loads'):
                a = args[0]
                if name == 'pickle.loads' and a.tag == 'op' and a.k[1] == 'pickled':
                    a = a.k[2]
                    v = Tok('copy(%s)' % text(a)) if is_tok(a) else a
                    return [(v, st)]
                if name == 'pickle.dumps':
                    return [(Op('pickled', a), st)] + self.failing(st, n, fi, 'copy')
                return [(Tok('copy(%s)' % text(a)) if is_tok(a) else a, st)] + self.failing(st, n, fi, 'copy')
            if name in ('pickle.dump', 'pickle.load'):
                return self.pickle(w, name, args, kw, n, fi, st)
            if name in ('sys.exit', 'os._exit'):
                return [(Exc('SystemExit', None, n, fi), self.ev(st, n, fi, 'exit'))]
            if name.startswith('traceback.') or name == 'sys.stdout.flush':
                return [(NONE, st)]
            if name in ('subprocess.Popen',):
                i = st.notes.get('procs', 0)
                st = st.copy()
                st.notes['procs'] = i + 1
                return [(w.new_obj(st, None, 'proc%d' % i, {'stdin': Tok('proc%d.in' % i), 'stdout': Tok('proc%d.out' % i)}), st)]
        if f.tag == 'attr':
            b, m = f.k[1], f.k[2]
            if b == LOCK:
                return self.lock(m, n, fi, st)
            if b.tag == 'thread':
                if m == 'start':
                    s = self.ev(st, n, fi, 'start', args=b.k[2])
                    s.notes['pending'] = s.notes.get('pending', ()) + ((b.k[1], b.k[2]),)
                    bad = self.failing(st, n, fi, 'thread', 'RuntimeError')
                    for _, s2 in bad:
                        s2.notes['retry'] = True
                    return [(NONE, s)] + bad
                return [(NONE, st)]
            if b == CONTAINER:
                if m == 'add_result':
                    return [(NONE, self.ev(st, n, fi, 'add', args=Tup(args)))] + self.failing(st, n, fi, 'add', args=Tup(args))
                if m == 'get_results':
                    return [(Tok('results'), self.ev(st, n, fi, 'collect', args=Tup(args)))] + self.failing(st, n, fi, 'collect')
            if is_tok(b):
                if m == 'fork':
                    s = self.ev(st, n, fi, 'fork', args=Tup([b]))
                    return [(Tok('fork(%s)' % text(b)), s)] + self.failing(st, n, fi, 'fork')
                if m == 'setup_environment':
                    return [(NONE, self.ev(st, n, fi, 'setup', args=Tup([b])))] + self.failing(st, n, fi, 'setup')
                if m in ('flush', 'close', 'write') and text(b).startswith('proc'):
                    return [(NONE, st)]
        if is_tok(f) and len(args) == 1 and not kw:
            s = self.ev(st, n, fi, 'task', args=Tup([f, args[0]]))
            return [(Tok('%s(%s)' % (text(f), text(args[0]))), s)] + self.failing(st, n, fi, 'task', args=Tup([f, args[0]]))
        return TokenPolicy.intercept(self, w, f, args, kw, n, fi, st)

    def lock(self, m, n, fi, st):
        if m in ('acquire', '__enter__'):
            if self.held(st):
                s = self.ev(st, n, fi, 'deadlock')
                return [(Exc('Stuck', None, n, fi), s)]
            s = st.copy()
            s.notes['lock'] = 1
            return [(TRUE, s)]
        if m in ('release', '__exit__'):
            if not self.held(st):
                s = self.ev(st, n, fi, 'bad-release')
                return [(Exc('RuntimeError', None, n, fi), s)]
            s = st.copy()
            s.notes['lock'] = 0
            return [(NONE, s)]
        if m == 'locked':
            return [(Const(self.held(st)), st)]
        return [(NONE, st)]

    # pipes to slave processes: what was sent is answered in order
    def pickle(self, w, name, args, kw, n, fi, st):
        if name == 'pickle.dump':
            s = self.ev(st, n, fi, 'send', args=Tup(args))
            chan = args[1] if len(args) > 1 else kw.get('file', NONE)
            ch = text(chan)[:-3]
            if s.notes.get(('dead', ch)):
                return [(Exc('OSError', None, n, fi), self.ev(st, n, fi, 'pipe', failed=True))]
            s.notes[('sent', text(chan))] = s.notes.get(('sent', text(chan)), ()) + (args[0],)
            bad = self.failing(st, n, fi, 'pipe', 'OSError')
            for _, s2 in bad:
                s2.notes[('dead', ch)] = True
            return [(NONE, s)] + bad
        chan = args[0]
        s = self.ev(st, n, fi, 'receive', args=Tup(args))
        return self.receive(w, chan, n, fi, s)

    def receive(self, w, chan, n, fi, s):
        inp = text(chan).replace('.out', '.in')
        sent = s.notes.get(('sent', inp), ())
        if s.notes.get(('dead', inp[:-3])):
            return [(Exc('EOFError', None, n, fi), self.ev(s, n, fi, 'pipe', failed=True))]
        got = s.notes.get(('recv', inp), 0)
        if got >= len(sent):
            return [(Exc('Stuck', None, n, fi), self.ev(s, n, fi, 'stuck'))]
        msg = sent[got]
        s2 = s.copy()
        s2.notes[('recv', inp)] = got + 1
        label = 'answer(%s)' % show(msg)
        bad = self.failing(s, n, fi, 'pipe', 'EOFError')
        for _, s3 in bad:
            s3.notes[('dead', inp[:-3])] = True
        return [(Tok(label), s2)] + bad


class _Ctx(object):
    def __init__(self, fi):
        self.fi = fi
        self.env = None
