"""Scenarios for the scheduler checks (S01-S03)."""
from .proto import Tok, exc_is
from .schedmodel import CONTAINER, SchedPolicy, text
from .walker import Attr, Const, Exc, HList, HObj, NONE, Op, RAISE, RETURN, TRUE, FALSE, Tup, Walker, show

SCHEDULERS = ['mdp.parallel.scheduling.Scheduler', 'mdp.parallel.thread_schedule.ThreadScheduler',
              'mdp.parallel.process_schedule.ProcessScheduler']


def lines(st, limit=24):
    out = []
    for e in st.trace:
        if e.kind != 'sched':
            continue
        d = e.data
        t = e.op
        if e.op == 'write':
            t = 'write %s' % d['name']
        elif d.get('args') is not None:
            t = '%s %s' % (e.op, show(d['args']))
        out.append('%s %s%s%s%s' % (e.loc(), t, ' FAILS' if d.get('failed') else '', ' [lock held]' if e.held else '',
                                    ' in task thread' if e.where else ''))
    return out[-limit:]


def make(c, cls, n, verbose=False, lifo=False, max_fails=1, fails=None, copy=True, real=None, **kw):
    prog = c.prog
    pol = SchedPolicy(prog, max_fails, lifo, fails)
    w = Walker(prog, pol)
    st = w.new_state()
    st.notes['setup'] = True
    ci = prog.find_class(cls)
    ref = w.new_obj(st, ci, 'sched')
    init = prog.method(ci, '__init__')
    names = [a.arg for a in init.node.args.args]
    k = dict(kw)
    k['result_container'] = CONTAINER
    k['verbose'] = TRUE if verbose else FALSE
    for nm in ('n_threads', 'n_processes'):
        if nm in names:
            k[nm] = Const(n)
    if 'copy_callable' in names:
        k['copy_callable'] = TRUE if copy else FALSE
    if 'cache_callable' in names:
        k['cache_callable'] = TRUE if copy else FALSE
    outs = []
    for kind, v, s in w.run_func(st, init, [], k, selfv=ref):
        c.obl('construct', ci.name, kind == RETURN, init.loc(), 'the constructor fails with %s' % getattr(v, 'name', ''))
        if kind == RETURN:
            s.notes['setup'] = False
            outs.append(s)
    return w, pol, ref, outs


def ops(c, w, pol, ref, states, seq, after=None):
    """run operations; thread bodies may also run between operations (both ways)"""
    prog = c.prog
    ci = states[0].obj(ref).cls if states else None
    for op, args in seq:
        nxt = []
        for s in states:
            mark = len(s.trace)
            for kind, v, s2 in w.run_method(s, ref, op, list(args)):
                s2 = s2.copy()
                s2.notes['last'] = (op, kind, v)
                if after is not None:
                    after(op, args, kind, v, s2, mark)
                if pol.held(s2) or any(e.op in ('deadlock', 'stuck') for e in s2.trace[mark:] if e.kind == 'sched'):
                    continue          # reported; nothing can follow
                nxt.append(s2)
                if s2.notes.get('pending'):
                    for s3 in pol.run_pending(w, s2, prog.method(ci, op).node, prog.method(ci, op)):
                        if s3.notes.pop('leaked', None):
                            continue
                        nxt.append(s3)
        states = nxt
    return states


def lock_check(c):
    prog = c.prog
    thorough = c.tier == 'thorough'
    for cls in SCHEDULERS:
        ci = prog.find_class(cls)
        for n in (1, 2):
            for copy in (True, False):
                for verbose in (False, True):
                    if verbose and (n == 2 or copy):
                        continue
                    for lifo in ((False, True) if thorough else (False,)):
                        w, pol, ref, states = make(c, cls, n, verbose, lifo, copy=copy, max_fails=2 if thorough else 1)
                        scen = [[('add_task', [Tok('d0'), Tok('cA')]), ('add_task', [Tok('d1'), Tok('fB')]), ('add_task', [Tok('d2')]),
                                 ('get_results', []), ('shutdown', [])],
                                [('add_task', [Tok('d0')]), ('set_task_callable', [Tok('cA')]), ('add_task', [Tok('d0')]), ('get_results', []),
                                 ('get_results', [])],
                                [('add_task', [Tok('d0'), Tok('cA')]), ('shutdown', [])]]
                        for seq in scen:
                            final = ops(c, w, pol, ref, [s.copy() for s in states], seq,
                                        lambda op, a, kind, v, s, mark: judge_lock(c, ci, pol, op, kind, v, s, mark))
                            c.count('lock scenarios')
                            c.count('paths', len(final))
                        c.visits(w)
    c.need('lock scenarios', 20)


def judge_lock(c, ci, pol, op, kind, v, s, mark):
    prog = c.prog
    name = '%s.%s' % (ci.name, op)
    loc0 = prog.method(ci, op).loc()
    path = lines(s)
    evs = [e for e in s.trace[mark:] if e.kind == 'sched']
    where = prog.method(ci, op).loc()
    dead = [e for e in evs if e.op == 'deadlock']
    c.obl('acquired-once', name, not dead, dead[0].loc() if dead else loc0, 'acquires the lock it already holds', path)
    bad = [e for e in evs if e.op == 'bad-release']
    c.obl('released-held', name, not bad, bad[0].loc() if bad else loc0, 'releases the lock without holding it', path)
    sl = [e for e in evs if e.op in ('sleep', 'receive') and e.held]
    c.obl('no-wait-with-lock', name, not sl, sl[0].loc() if sl else loc0, 'waits while holding the lock', path)
    if not dead and not any(e.op == 'stuck' for e in evs):
        c.obl('released-at-end', name, not pol.held(s), (v.node and v.fi and '%s:%d' % (v.fi.module.relpath, v.node.lineno)) if kind == RAISE and v.node is not None else loc0,
              'ends (%s) with the lock held' % ('exception %s' % v.name if kind == RAISE else 'normally'), path)
    for e in evs:
        if e.op == 'thread-ends':
            c.obl('released-at-end', '%s task thread' % ci.name, not e.held, e.loc(), 'a task thread ends with the lock held', path)
        if e.op in ('add', 'collect'):
            c.obl('guarded-container', '%s result container' % ci.name, e.held, e.loc(), 'the result container is used without the lock', path)
        if e.op == 'write':
            c.obl('guarded-write', '%s.%s' % (ci.name, e.data['name']), e.held, e.loc(), 'attribute %s is written without the lock' % e.data['name'], path)


# ------------------------------------------------------------- accounting
def task_scenarios(thorough):
    A = lambda d, *c: ('add_task', [Tok(d)] + [Tok(x) for x in c])
    S = lambda x: ('set_task_callable', [Tok(x)])
    G = ('get_results', [])
    out = [[A('d0', 'cA'), G],
           [A('d0', 'cA'), A('d1'), A('d2', 'cB'), G, A('d3'), G],
           [A('d0', 'fA'), S('cB'), A('d1'), G],
           [S('cA'), A('d0'), A('d1', 'fB'), A('d2'), G],
           [S('fA'), A('d0'), G, G],
           [A('d0', 'cA'), A('d1', 'cB'), A('d2', 'cA'), A('d3'), G]]
    if thorough:
        out += [[A('d0', 'cA'), A('d1'), A('d2'), S('cB'), A('d3'), A('d4'), G, A('d5', 'cA'), G],
                [G, A('d0', 'cA'), G, A('d1'), G],
                [A('d0', 'cA'), S('cB'), S('cA'), A('d1'), A('d2', 'cB'), A('d3'), G]]
    return out


def expected(seq):
    """callable in force for every add_task in the sequence"""
    cur, out = None, []
    for op, a in seq:
        if op == 'set_task_callable':
            cur = text(a[0])
        elif op == 'add_task':
            if len(a) > 1:
                cur = text(a[1])
            out.append((text(a[0]), cur))
    return out


def unwrap(st, v):
    o = st.obj(v)
    if isinstance(o, HObj):
        for x in o.fields.values():
            t = unwrap(st, x)
            if t is not None:
                return t
        return None
    t = text(v)
    return t if t[0] != '<' else None


def base_callable(t):
    """the original callable under forks and copies"""
    while t.startswith(('fork(', 'copy(')) and t.endswith(')'):
        t = t[5:-1]
    return t


def accounting(c, rules):
    """rules: 'tasks' (S02) or 'callables' (S03)"""
    prog = c.prog
    thorough = c.tier == 'thorough'
    for cls in SCHEDULERS:
        ci = prog.find_class(cls)
        for n in (1, 2):
            for copy in (True, False):
                for lifo in (False, True):
                    if cls.endswith('.Scheduler') and (n == 2 or copy or lifo):
                        continue
                    for seq in task_scenarios(thorough):
                        mf = (2 if thorough and len(seq) < 6 else 1) if rules == 'tasks' else 0
                        w, pol, ref, states = make(c, cls, n, False, lifo, max_fails=mf, copy=copy)
                        hist = {}
                        ops(c, w, pol, ref, states, seq,
                            lambda op, a, kind, v, s, mark: step(c, ci, w, pol, ref, n, copy, op, a, kind, v, s, mark, rules))
                        c.visits(w)
                        c.count('scheduler scenarios')
    c.need('scheduler scenarios', 30)


def step(c, ci, w, pol, ref, n, copy, op, a, kind, v, s, mark, rules):
    """judge one operation; s.notes['book'] holds (accepted tasks, callable in force, judged index)"""
    prog = c.prog
    name = ci.name
    fi = prog.method(ci, op)
    loc = fi.loc()
    path = lines(s)
    cur, tasks, reported = s.notes.get('book', (None, (), 0))
    evs = [e for e in s.trace if e.kind == 'sched']
    new = [e for e in s.trace[mark:] if e.kind == 'sched']
    T = rules == 'tasks'
    if op == 'set_task_callable':
        cur = text(a[0])
        if T:
            c.obl('completes', '%s.set_task_callable' % name, kind == RETURN, loc, 'fails', path)
    if op == 'add_task':
        if len(a) > 1:
            cur = text(a[1])
        failed = [e for e in new if e.data.get('failed') and e.where is None]
        if kind == RETURN:
            tasks = tasks + ((text(a[0]), cur),)
        if T and not any(e.op == 'stuck' for e in new):
            c.obl('add-accepts', '%s.add_task' % name, kind == RETURN or bool(failed), loc,
                  'add_task fails with %s although nothing failed' % (v.name if kind == RAISE else ''), path)
            hard = [e for e in failed if e.op in ('fork', 'copy')]
            if hard:
                c.obl('failure-reported', '%s.add_task' % name, kind == RAISE, hard[0].loc(), 'a failing %s is not reported' % hard[0].op, path)
    s.notes['book'] = (cur, tasks, reported)
    stuck = [e for e in new if e.op in ('stuck', 'deadlock')]
    if T:
        c.obl('no-endless-wait', '%s.%s' % (name, op), not stuck, stuck[0].loc() if stuck else loc,
              'waits forever: no task is left that could end the wait', path)
        # bounded concurrency
        live = 0
        for e in evs:
            if e.op == 'start' and not e.data.get('failed'):
                live += 1
                if e in new:
                    c.obl('bounded-concurrency', '%s.%s' % (name, op), live <= n, e.loc(), '%d tasks run at once, allowed are %d' % (live, n), path)
            elif e.op == 'thread-ends':
                live -= 1
    if stuck or kind == RAISE and v.cls == 'Stuck':
        return
    if T:
        pend = len(s.notes.get('pending', ()))
        for k2, v2, s2 in w.run_method(s.copy(), ref, 'n_open_tasks') if prog.method(ci, 'n_open_tasks') else []:
            c.obl('open-count', '%s.%s' % (name, op), k2 == RETURN and v2 == Const(pend), loc,
                  'n_open_tasks is %s while %d tasks are unfinished' % (show(v2), pend), path)
        for e in new:
            if e.op == 'thread-ends':
                pass
    if op != 'get_results':
        if not T:
            judge_callables(c, ci, s, tasks, copy, path, loc)
        return
    # ---- get_results: every accepted task is finished
    adds = [e for e in evs if e.op == 'add']
    if T:
        c.obl('all-finished', '%s.get_results' % name, not s.notes.get('pending'), loc, 'returns while tasks are running', path)
        since = evs[reported:]
        bad = [e for e in since if e.data.get('failed') and e.where is not None and e.op in ('task', 'add', 'pipe', 'setup')]
        coll_bad = [e for e in new if e.op == 'collect' and e.data.get('failed')]
        main_add = [e for e in since if e.data.get('failed') and e.where is None and e.op == 'add']
        if main_add and not bad and not coll_bad:
            pass            # already reported by add_task; the results are incomplete
        elif not bad and not coll_bad:
            c.obl('results-returned', '%s.get_results' % name, kind == RETURN and v == Tok('results'), loc,
                  'returns %s instead of the collected results' % (show(v) if kind == RETURN else v.name), path)
        else:
            c.obl('failure-reported', '%s.get_results' % name, kind == RAISE, (bad + coll_bad)[0].loc(),
                  'a failed %s is not reported to the caller' % (bad + coll_bad)[0].op, path)
        s.notes['book'] = (cur, tasks, len(evs))
        # every successful accepted task is stored once under its own number
        good = [e for e in adds]
        idx = [e.args.k[2] for e in good]
        c.obl('stored-once', '%s._store_result' % name, len(set(idx)) == len(idx), loc, 'two results are stored under one task number: %s' % show(Tup(idx)), path)
        lost = [e for e in evs if e.data.get('failed')]
        if not lost:
            c.obl('stored-once', '%s.get_results' % name, len(adds) == len(tasks), loc, '%d results stored for %d tasks' % (len(adds), len(tasks)), path)
            order = {}
            for e in adds:
                order[e.args.k[2]] = unwrap(s, e.args.k[1]) or show(e.args.k[1])
            ordered = [order[k] for k in sorted(order, key=lambda x: x.k[2])]
            for i, (d, f) in enumerate(tasks):
                ok = i < len(ordered) and (('(%s)' % d) in ordered[i] or ('@%s,' % d) in ordered[i] or ('(%s,' % d) in ordered[i] or d in ordered[i])
                c.obl('own-result', '%s.get_results' % name, ok, loc, 'task %d on %s is stored as %s' % (i, d, ordered[i] if i < len(ordered) else 'nothing'), path)
    else:
        judge_callables(c, ci, s, tasks, copy, path, loc)


def judge_callables(c, ci, s, tasks, copy, path, loc):
    name = ci.name
    want = dict(tasks)
    chans = {}
    nforks = {}
    ntasks = {}
    for e in s.trace:
        if e.kind != 'sched':
            continue
        if e.op == 'fork':
            t = base_callable(text(e.args.k[1]))
            nforks[t] = nforks.get(t, 0) + 1
        if e.op == 'task' and not e.data.get('failed'):
            f, d = text(e.args.k[1]), text(e.args.k[2])
            b = base_callable(f)
            c.obl('callable-in-force', '%s.add_task' % name, want.get(d) == b, e.loc(), 'data %s is processed by %s instead of %s' % (d, b, want.get(d)), path)
            if b.startswith('c'):
                ntasks[b] = ntasks.get(b, 0) + 1
                c.obl('runs-on-fork', '%s.add_task' % name, 'fork(' in f, e.loc(), 'the task runs on %s itself and not on a fork' % b, path)
                c.obl('runs-on-fork', '%s.add_task' % name, nforks.get(b, 0) >= ntasks[b], e.loc(), 'a fork of %s is used for two tasks' % b, path)
                if copy and name == 'ThreadScheduler':
                    c.obl('runs-on-copy', '%s.add_task' % name, 'copy(' in f, e.loc(), 'the callable is not copied for the thread', path)
        if e.op == 'send' and not e.data.get('failed'):
            msg, chan = e.args.k[1], text(e.args.k[2])
            if msg.tag != 'tup' or len(msg.k) != 4:
                continue
            d = text(msg.k[1])
            if msg.k[2] == NONE:
                c.obl('callable-in-force', '%s._task_thread' % name, chans.get(chan) == want.get(d), e.loc(),
                      'the slave is told to reuse %s for data %s, in force was %s' % (chans.get(chan), d, want.get(d)), path)
            else:
                f = base_callable(unwrap(s, msg.k[2]) or '?')
                c.obl('callable-in-force', '%s._task_thread' % name, f == want.get(d), e.loc(), 'data %s is sent with %s instead of %s' % (d, f, want.get(d)), path)
                chans[chan] = f
                if not copy:
                    pass
            if not copy:
                c.obl('no-cache', '%s._task_thread' % name, msg.k[2] != NONE, e.loc(), 'no callable is sent although caching is off', path)


# ------------------------------------------------------------- slave side
class SlavePolicy(SchedPolicy):
    """messages arrive in order; every task step may fail"""
    def __init__(self, prog, msgs, max_fails):
        SchedPolicy.__init__(self, prog, max_fails, fails=('setup', 'fork', 'task'))
        self.msgs = msgs
        self.while_bound = len(msgs) + 2

    def pickle(self, w, name, args, kw, n, fi, st):
        if name == 'pickle.dump':
            return [(NONE, self.ev(st, n, fi, 'answer', args=Tup(args[:1])))]
        i = st.notes.get('recv', 0)
        if i >= len(self.msgs):
            return [(Exc('Stuck', None, n, fi), self.ev(st, n, fi, 'stuck'))]
        s = self.ev(st, n, fi, 'receive', args=Tup([self.msgs[i]]))
        s.notes['recv'] = i + 1
        return [(self.msgs[i], s)]


def slave(c):
    prog = c.prog
    fi = prog.find_function('mdp.parallel.process_schedule._process_run')
    M = lambda d, f, i: Tup([Tok(d), NONE if f is None else Tok(f), Const(i)])
    for cache in (True, False):
        for seq in ([('d0', 'cA'), ('d1', None), ('d2', 'cB'), ('d3', None)], [('d0', 'cA'), ('d1', 'cA')], [('d0', None)]):
            if not cache and any(f is None for _, f in seq):
                continue
            pol = SlavePolicy(prog, [M(d, f, i) for i, (d, f) in enumerate(seq)] + [Const('EXIT')], 1)
            w = Walker(prog, pol)
            st = w.new_state()
            res = w.run_func(st, fi, [TRUE if cache else FALSE])
            c.visits(w)
            for kind, v, s in res:
                path = lines(s)
                evs = [e for e in s.trace if e.kind == 'sched']
                cur, last = None, None
                k = 0
                failed = any(e.data.get('failed') for e in evs)
                setups = {}
                for e in evs:
                    if e.op == 'receive':
                        if e.args.k[1].tag == 'tup':
                            d, f = text(e.args.k[1].k[1]), e.args.k[1].k[2]
                            last = (d, text(f) if f != NONE else (last[1] if last else None))
                            setups[last[1]] = setups.get(last[1], False)
                            if f != NONE:
                                setups[last[1]] = False
                        else:
                            last = None
                    elif e.op == 'setup' and not e.data.get('failed'):
                        setups[base_callable(text(e.args.k[1]))] = True
                    elif e.op == 'task':
                        f, d = text(e.args.k[1]), text(e.args.k[2])
                        c.obl('slave-callable', '_process_run', last is not None and d == last[0] and base_callable(f) == last[1], e.loc(),
                              'the slave runs %s on %s for message %s' % (f, d, last), path)
                        c.obl('slave-fork', '_process_run', 'fork(' in f, e.loc(), 'the slave runs the callable itself and not a fork', path)
                        c.obl('slave-environment', '_process_run', setups.get(base_callable(f), False), e.loc(), 'the environment is not set up before the task', path)
                    elif e.op == 'answer':
                        t = text(e.args.k[1])
                        c.obl('slave-answer', '_process_run', last is not None and t.endswith('(%s)' % last[0]) and base_callable(t.rpartition('(')[0]) == last[1],
                              e.loc(), 'the slave answers %s to %s' % (t, last), path)
                        k += 1
                after_fail = False
                for e in evs:
                    if e.data.get('failed'):
                        after_fail = True
                    elif after_fail and e.op in ('answer', 'receive'):
                        c.obl('slave-stops', '_process_run', False, e.loc(), 'the slave goes on after a failed task, its answers no longer match the tasks', path)
                        after_fail = False
                if not failed and len(seq) > 1:
                    c.obl('slave-answer', '_process_run', k == len(seq) and kind == RETURN, fi.loc(), '%d answers to %d tasks, ends with %s'
                          % (k, len(seq), kind), path)
                if failed:
                    c.obl('slave-stops', '_process_run', kind == RAISE or k < len(seq), fi.loc(), 'a failed task is answered', path)
                c.count('slave paths')
