"""Driver and oracle for parallel flows (ParallelFlow, ParallelCheckpointFlow)."""
import itertools

from .flowmodel import Iterable, text
from .model import AnalysisError
from .parmodel import ParPolicy, ParSpec, par_lines, par_setup, parops
from .proto import Hook, Tok, exc_is, hook_events, hook_name, is_tok
from .walker import Const, FALSE, HDict, HList, HObj, NONE, RAISE, RETURN, TRUE, Tup, show

FLOW = 'mdp.parallel.parallelflows.ParallelFlow'
CPFLOW = 'mdp.parallel.parallelflows.ParallelCheckpointFlow'
LISTC = 'mdp.parallel.scheduling.ListResultContainer'
TRAINC = 'mdp.parallel.parallelflows.TrainResultContainer'
FAILS = ('fork', 'train', 'join', 'stop', 'execute')


def chunk(it):
    """what the flow node is trained with for one data item"""
    if it.tag == 'tup':
        return tuple(text(x) for x in it.k[1:])
    return (text(it),)


def expected(specs, data):
    """[(node, phase, [chunks])], index of node at fault or None"""
    out = []
    used = {}
    for i, (sp, d) in enumerate(zip(specs, data)):
        for p in range(sp.done, sp.phases):
            if d is None:
                return out, (i, 'no data')
            items = d.items
            if d.oneshot:
                items = items[used.get(id(d), 0):]
                used[id(d)] = len(d.items)
            if not items:
                return out, (i, 'an empty or exhausted iterator')
            out.append(('n%d' % i, p, sorted(chunk(x) for x in items)))
    return out, None


def stops(st):
    out = []
    for e in parops(st):
        if e.op == 'stop' and not e.failed:
            out.append((e.who, e.phase, sorted(tuple(text(x) for x in a.k[1:]) for a in e.acc)))
    return out


def phase_field(w, st, me, name):
    """value of an observer property"""
    m = w.prog.method(st.obj(me).cls, name)
    res = [(k, v) for k, v, s in w.run_func(st, m, [], {}, selfv=me)]
    return [v for k, v in res if k == RETURN]


def idle(c, label, w, st, me, loc, path):
    """nothing is underway any more"""
    for name in ('is_parallel_training', 'is_parallel_executing', 'task_available'):
        vals = phase_field(w, st, me, name)
        ok = bool(vals) and all(v == FALSE or w.static_truth(v, st) is False for v in vals)
        c.obl('ready-again', label, ok, loc, '%s is %s after the call has ended' % (name, [show(v) for v in vals]), path)


def last_loc(st, default):
    for e in reversed(st.trace):
        if e.kind in ('par', 'call', 'new', 'loop', 'branch'):
            return e.loc()
    return default


def common(c, label, st, refs, loc, path, spec_by):
    seen_join = set()
    for e in parops(st):
        if e.op == 'join' and not e.failed:
            ok = e.other not in seen_join
            seen_join.add(e.other)
            c.obl('joined-once', label, ok, e.loc(), 'a fork is joined twice', path)
        elif e.op == 'closed-use':
            c.obl('scheduler-open', label, False, e.loc(), 'scheduler %s is used after it was shut down' % e.who, path)
        elif e.op == 'nocallable':
            c.obl('callable-sent', label, False, e.loc(), 'a task is added before any task callable', path)
        elif e.op in ('badstop', 'badtrain', 'badjoin'):
            c.obl('protocol', label, False, e.loc(), '%s in a state in which it must fail' % e.op[3:], path)
        elif e.op == 'train':
            want = e.phase in spec_by[e.who].forkable
            c.obl('forked', label, bool(e.fork) == want, e.loc(), 'phase %s of %s is trained %s' %
                  (e.phase, e.who, 'on the flow itself although it can be forked' if want else 'on a fork although it cannot be forked'), path)
    # nodes of the flow itself are never replaced
    for e in parops(st):
        if e.op == 'flownode':
            o = st.obj(e.ref)
            fl = st.obj(o.fields['_flow'])
            if isinstance(fl, HObj) and 'flow' in fl.fields and isinstance(st.obj(fl.fields['flow']), HList):
                c.obl('nodes-kept', label, list(st.obj(fl.fields['flow']).items) == list(refs), loc,
                      'nodes of the flow itself are replaced by dummies', path)


def train_case(c, cls, label, specs, data, late=False, container=None, overwrite=True, seq=None, fails=(), cps=None, again=False, array=False):
    """seq: None for one scheduler, else the list of 's'/None per node; cps: checkpoint pattern"""
    prog = c.prog
    c.count('training scenarios')
    its, toks = {}, []
    if array:
        data = [Iterable([Tok('arr')]) for _ in specs]
    for i, d in enumerate(data):
        if d is None:
            toks.append(NONE)
        else:
            its['d%d' % i] = d
            toks.append(Tok('d%d' % i))
    names = ['sched'] if seq is None else ['s%d' % i for i, x in enumerate(seq) if x]
    w, pol, st, me, refs, srefs = par_setup(c, cls, specs, its, ('arr',) if array else (), scheds=names, container=container, late=late, fail_ops=fails,
                                            policy=CpPolicy if cps is not None else ParPolicy)
    spec_by = {'n%d' % i: s for i, s in enumerate(specs)}
    args = [Tok('arr') if array else st.alloc(HList(toks))]
    if cps is not None:
        pol.results = {'cp%d' % i: p for i, p in enumerate(cps)}
        args.append(st.alloc(HList([NONE if p == 'none' else Hook('cp%d' % i) for i, p in enumerate(cps)])))
    if seq is None:
        kw = {'scheduler': srefs[0]}
    else:
        srefs = list(srefs)
        full = [srefs.pop(0) if x else NONE for x in seq]
        pol.iterables['scheds'] = Iterable(full, True)
        kw = {'scheduler': Tok('scheds')}
    if not overwrite:
        kw['overwrite_result_container'] = FALSE
    loc0 = prog.method(prog.find_class(cls), 'train').loc()
    want, bad = expected(specs, data)
    good = 0
    res = w.run_method(st, me, 'train', args, kw)
    c.visits(w)
    c.count('training paths', len(res))
    for kind, val, s in res:
        path, loc = par_lines(s), last_loc(s, loc0)
        common(c, label, s, refs, loc, path, spec_by)
        got = stops(s)
        pre = got == want[:len(got)]
        d = next((k for k in range(len(got)) if k >= len(want) or got[k] != want[k]), None)
        c.obl('phase-data', label, pre, loc, '' if pre else 'a training phase is closed as %s, expected %s' % (got[d], want[d] if d < len(want) else 'no further phase'), path)
        failed = any(e.data.get('failed') for e in parops(s)) or any(h[3] for h in hook_events(s))
        if seq is not None:
            sched_seq(c, label, s, seq, kind, loc, path)
        idle(c, label, w, s, me, loc, path)
        if cps is not None:
            checkpoints(c, label, specs, cps, s, refs, got, kind, failed, loc, path, me)
        if failed:
            c.obl('failure-reported', label, kind == RAISE, loc, 'a failing step ends in a normal return', path)
            if again:
                retrain(c, label, w, pol, s, me, refs, specs, cls, container, loc, path, srefs[0])
            continue
        if bad is not None:
            c.obl('bad-data-refused', label, kind == RAISE and (exc_is(prog, val, ('FlowException',)) or bad[1] == 'no data'), loc,
                  'node %d gets %s but training ends in %s' % (bad[0], bad[1], 'a normal return' if kind == RETURN else val.name), path)
            continue
        c.obl('completes', label, kind == RETURN, loc, 'training fails with %s although no step failed' % getattr(val, 'name', ''), path)
        if kind == RETURN:
            good += 1
            c.obl('all-phases', label, got == want, loc, 'training returns after %s of %s phases' % (len(got), len(want)), path)
    if bad is None:
        c.obl('completes', label, good > 0, loc0, 'no path trains the flow')


def retrain(c, label, w, pol, s, me, refs, specs, cls, container, loc, path, used):
    """the flow can be trained again after a failure, with another scheduler or the same one

    Data that reached the nodes of the flow itself before the failure may count twice."""
    fo, pol.fail_ops = pol.fail_ops, ()
    bad = [e for e in parops(s) if e.data.get('failed')]
    forks = [r for r in (e.data.get('new') for e in parops(s)) if r is not None]
    clean = all(e.op == 'fork' or (e.op == 'train' and e.fork) or (e.op == 'join' and e.fn in forks) for e in bad)
    for same in (False, True):
        s1 = s.copy()
        s1.trace = ()
        sched = used
        if not same:
            sched, s1 = pol.new_sched(w, s1, 'again', *([container] if container else []))
        its = {'e%d' % i: Iterable([Tok('y%da' % i), Tok('y%db' % i)]) for i in range(len(specs))}
        pol.iterables.update(its)
        lst = s1.alloc(HList([Tok(k) for k in sorted(its)]))
        c.count('repeated trainings')
        for kind, val, s2 in w.run_method(s1, me, 'train', [lst], {'scheduler': sched}):
            done = all(s2.obj(r).fields['#phase'] == Const(sp.phases) for r, sp in zip(refs, specs))
            more = path + ['-- second training with %s scheduler --' % ('the same' if same else 'another')] + par_lines(s2)
            c.obl('usable-after-failure', label, kind == RETURN and done, loc, 'training cannot be repeated after the failure: %s'
                  % (val.name if kind == RAISE else 'some phases stay open'), more)
            for nm, p, acc in stops(s2):
                own = [('y%s%s' % (nm[1:], k),) for k in 'ab']
                ok = acc == own if clean else all(acc.count(x) == 1 for x in own)
                c.obl('usable-after-failure', label, ok, loc, 'the repeated training closes %s with %s' % (nm, acc), more)
    pol.fail_ops = fo


def execute_again(c, label, w, pol, s, me, sched, kw, loc, path):
    """an execution after a failed one returns the results for its own data"""
    fo, pol.fail_ops = pol.fail_ops, ()
    pol.iterables['e0'] = Iterable([Tok('y0a'), Tok('y0b')])
    s = s.copy()
    s.trace = ()
    c.count('repeated executions')
    for kind, val, s2 in w.run_method(s, me, 'execute', [Tok('e0')], {'scheduler': sched}):
        more = path + ['-- second execution --'] + par_lines(s2)
        c.obl('usable-after-failure', label, kind == RETURN and text(val) == 'cat[flow(y0a), flow(y0b)]', loc, 'the execution after the failure ends in %s'
              % (val.name if kind == RAISE else text(val)), more)
    pol.fail_ops = fo


def sched_seq(c, label, s, seq, kind, loc, path):
    """scheduler i is used for node i only; every scheduler taken is shut down once, after its use"""
    by = {}
    for e in parops(s):
        if e.op in ('add', 'collect', 'shutdown'):
            by.setdefault(e.who, []).append(e.op)
    adds = {}
    cur = None
    for e in parops(s):
        if e.op == 'add':
            adds.setdefault(e.who, [])
        if e.op == 'train' and e.fork:
            pass
    left = len(s.obj(s.notes[('iterobj', Tok('scheds'))]).items) if ('iterobj', Tok('scheds')) in s.notes else len(seq)
    taken = len(seq) - left
    for i, x in enumerate(seq):
        if not x:
            continue
        ops = by.get('s%d' % i, [])
        if i < taken:
            c.obl('schedulers-closed', label, ops.count('shutdown') == 1, loc, 'scheduler %d was taken from the sequence but is shut down %d times'
                  % (i, ops.count('shutdown')), path)
        else:
            c.obl('schedulers-closed', label, not ops, loc, 'scheduler %d is used but was never taken' % i, path)
    # tasks of node i go to scheduler i
    for e in parops(s):
        if e.op == 'add' and e.data.get('data') is not None:
            nm = text(e.data['data'].k[1] if e.data['data'].tag == 'tup' else e.data['data'])
            c.obl('scheduler-of-node', label, nm.startswith('x%s' % e.who[1:]), e.loc(), 'data %s of another node is sent to scheduler %s' % (nm, e.who), path)


class CpPolicy(ParPolicy):
    results = {}

    def intercept(self, w, f, args, kw, n, fi, st):
        h = hook_name(f)
        if h is not None and h.startswith('cp'):
            out = []
            for v, s in w.call_opaque(f, args, kw, n, _C(fi), st):
                if hasattr(v, 'tag'):
                    s = s.copy()
                    v = NONE
                    if self.results.get(h) == 'dict':
                        v = s.alloc(HDict([(Const('added_' + h), Tok('value_' + h))]))
                elif s.notes.get('fails', 0) >= self.max_fails or 'cp' not in self.fail_ops:
                    continue
                out.append((v, s))
            return out
        return ParPolicy.intercept(self, w, f, args, kw, n, fi, st)


class _C(object):
    def __init__(self, fi):
        self.fi = fi


def checkpoints(c, label, specs, cps, s, refs, got, kind, failed, loc, path, me):
    seq = []
    for e in s.trace:
        if e.kind == 'par' and e.op == 'stop' and not e.failed:
            seq.append(('stop', e.who, e.phase))
        elif e.kind == 'par' and e.op == 'train':
            seq.append(('train', e.who, e.phase))
        elif e.kind == 'call' and (hook_name(e.callee) or '').startswith('cp'):
            i = int(hook_name(e.callee)[2:])
            c.obl('checkpoint-argument', label, tuple(e.args) == (refs[i],), e.loc(), 'checkpoint %d is called with %s' % (i, [show(a) for a in e.args]), path)
            # its node has just been closed
            last = next((x for x in reversed(seq)), None)
            c.obl('checkpoint-position', label, last == ('stop', 'n%d' % i, specs[i].phases - 1), e.loc(),
                  'checkpoint %d is called after %s, not when the training of its node has ended' % (i, last), path)
            seq.append(('cp', i))
    if kind == RETURN and not failed:
        want = [i for i, sp in enumerate(specs) if sp.done < sp.phases and cps[i] != 'none']
        have = [x[1] for x in seq if x[0] == 'cp']
        c.obl('checkpoints-called', label, have == want, loc, 'checkpoints %s are called, expected %s' % (have, want), path)
        for i in want:
            if cps[i] == 'dict':
                c.obl('checkpoint-result', label, s.obj(me).fields.get('added_cp%d' % i) == Tok('value_cp%d' % i), loc,
                      'the dictionary returned by checkpoint %d is not added to the flow' % i, path)


def dat(i, n=2, oneshot=False, args=0):
    return Iterable([Tup([Tok('x%d%s' % (i, 'abcd'[k]))] + [Tok('l%d%s' % (i, 'abcd'[k]))] * args) if args else Tok('x%d%s' % (i, 'abcd'[k])) for k in range(n)], oneshot)


def lab(specs):
    return ','.join('%d%s%s' % (s.phases, 'd%d' % s.done if s.done else '', '' if all(p in s.forkable for p in range(s.phases)) else 'L') for s in specs)


S = ParSpec
SPECSETS = [[S(1)], [S(2)], [S(0), S(1)], [S(1), S(1)], [S(1, forkable=False)], [S(1, forkable=False), S(1)], [S(1), S(1, forkable=False)],
            [S(2, forkable=(0,))], [S(2, forkable=(1,))], [S(1, done=1), S(2)], [S(0)], [S(1, done=1), S(1, done=1)], [S(2, done=1)],
            [S(1), S(0), S(1)], [S(1), S(1, done=1), S(2)], [S(1, exec_fork=True), S(1)], [S(1, forkable=False), S(2, forkable=(1,)), S(0)]]


def run_flow(c):
    th = c.tier == 'thorough'
    for specs in SPECSETS:
        L = lab(specs)
        n = len(specs)
        data = [dat(i, 2) for i in range(n)]
        for late in (False, True):
            train_case(c, FLOW, 'ParallelFlow.train[%s]' % L, specs, data, late=late)
        train_case(c, FLOW, 'ParallelFlow.train[%s;own container]' % L, specs, data, late=True, overwrite=False)
        train_case(c, FLOW, 'ParallelFlow.train[%s;train container]' % L, specs, data, container=TRAINC)
        train_case(c, FLOW, 'ParallelFlow.train[%s;3 chunks]' % L, specs, [dat(i, 3) for i in range(n)], late=True)
        train_case(c, FLOW, 'ParallelFlow.train[%s;1 chunk]' % L, specs, [dat(i, 1) for i in range(n)])
        train_case(c, FLOW, 'ParallelFlow.train[%s;args]' % L, specs, [dat(i, 2, args=1) for i in range(n)])
        train_case(c, FLOW, 'ParallelFlow.train[%s;iterators]' % L, specs, [dat(i, 2, True) for i in range(n)])
        train_case(c, FLOW, 'ParallelFlow.train[%s;array]' % L, specs, None, array=True) if len(specs) == 1 else None
        train_case(c, FLOW, 'ParallelFlow.train[%s;empty]' % L, specs, [dat(i, 0) for i in range(n)])
        train_case(c, FLOW, 'ParallelFlow.train[%s;None where possible]' % L, specs, [None if sp.done >= sp.phases else dat(i) for i, sp in enumerate(specs)])
        train_case(c, FLOW, 'ParallelFlow.train[%s;schedulers]' % L, specs, data, seq=[1] * n)
        local = [1 if any(p in sp.forkable for p in range(sp.done, sp.phases)) else 0 for sp in specs]
        train_case(c, FLOW, 'ParallelFlow.train[%s;schedulers where needed]' % L, specs, data, seq=local, late=True)
        train_case(c, FLOW, 'ParallelFlow.train[%s;failing]' % L, specs, data, fails=FAILS, again=True, late=n == 2)
        train_case(c, FLOW, 'ParallelFlow.train[%s;schedulers;failing]' % L, specs, data, fails=FAILS, seq=[1] * n)
        for cp in ([['none', 'dict', 'null'][i % 3] for i in range(n)], ['dict'] * n):
            train_case(c, CPFLOW, 'ParallelCheckpointFlow.train[%s;%s]' % (L, ','.join(cp)), specs, data, cps=cp, late=True)
        train_case(c, CPFLOW, 'ParallelCheckpointFlow.train[%s;failing]' % L, specs, data, cps=['dict'] * n, fails=('cp', 'stop'))
    for ef in (False, True):
        for late in (False, True):
            execute_cases(c, ef, late)
    for specs in SPECSETS:
        for k in (1, 2) if len(specs) < 3 else (2,):
            manual_case(c, specs, k)
    no_scheduler(c)
    c.need('training scenarios', 150)
    c.need('manual scenarios', 20)
    c.need('execution scenarios', 20)


def execute_cases(c, ef, late):
    for n in (0, 1, 2, 3):
        for cont, over in ((None, True), ('mdp.parallel.parallelflows.ExecuteResultContainer', True)):
            for nodenr in (None, 0):
                for one in (False, True):
                    for fails in ((), FAILS):
                        execute_case(c, n, ef, late, cont, over, nodenr, one, fails)
    execute_case(c, 1, ef, late, None, True, None, False, (), array=True)


def execute_case(c, n, ef, late, cont, over, nodenr, one, fails, array=False):
    prog = c.prog
    c.count('execution scenarios')
    label = 'ParallelFlow.execute[%d chunks%s%s%s]' % (n, ';execute forks' if ef else '', ';nodenr' if nodenr is not None else '', ';failing' if fails else '')
    specs = [S(1, done=1, exec_fork=ef), S(0)]
    d = dat(0, n, one)
    if array:
        label = 'ParallelFlow.execute[array%s]' % (';execute forks' if ef else '')
        d = Iterable([Tok('arr')])
    w, pol, st, me, refs, (sched,) = par_setup(c, FLOW, specs, {'d0': d}, ('arr',) if array else (), container=cont, late=late, fail_ops=fails)
    kw = {'scheduler': sched}
    if nodenr is not None:
        kw['nodenr'] = Const(nodenr)
    if not over:
        kw['overwrite_result_container'] = FALSE
    loc0 = prog.method(prog.find_class(FLOW), 'execute').loc()
    good = 0
    res = w.run_method(st, me, 'execute', [Tok('arr' if array else 'd0')], kw)
    c.visits(w)
    for kind, val, s in res:
        path, loc = par_lines(s), last_loc(s, loc0)
        common(c, label, s, refs, loc, path, {})
        idle(c, label, w, s, me, loc, path)
        if any(e.data.get('failed') for e in parops(s)):
            c.obl('failure-reported', label, kind == RAISE, loc, 'a failing step ends in a normal return', path)
            execute_again(c, label, w, pol, s, me, sched, kw, loc, path)
            continue
        if n == 0:
            c.obl('bad-data-refused', label, kind == RAISE and exc_is(prog, val, ('FlowException',)), loc,
                  'empty data ends in %s' % ('a normal return' if kind == RETURN else val.name), path)
            continue
        c.obl('completes', label, kind == RETURN, loc, 'execution fails with %s' % getattr(val, 'name', ''), path)
        if kind != RETURN:
            continue
        good += 1
        want = 'cat[%s]' % ', '.join('flow(%s%s)' % (text(x), '' if nodenr is None else ',%d' % nodenr) for x in d.items)
        c.obl('result', label, text(val) == want, loc, 'the result is %s instead of %s' % (text(val), want), path)
        ex = [e for e in parops(s) if e.op == 'execute']
        c.obl('forked', label, all(e.fork for e in ex) and len({e.fn for e in ex}) == len(ex), loc, 'chunks are not executed on a fork of their own', path)
        if ef:
            joined = set()
            for e in parops(s):
                if e.op == 'flownode':
                    joined |= set(s.obj(e.ref).fields['#joined'].k[1:])
            c.obl('execute-joined', label, joined == {e.fn for e in ex}, loc, '%d of %d execution forks are joined into the flow' % (len(joined), len(ex)), path)
    if n:
        c.obl('completes', label, good > 0, loc0, 'no path executes the flow')


class _N(object):
    lineno = 0
    col_offset = 0


def manual_case(c, specs, nchunks=2):
    """the task interface used by hand: setup, get_task ..., use_results ..."""
    prog = c.prog
    c.count('manual scenarios')
    label = 'ParallelFlow.manual[%s;%d]' % (lab(specs), nchunks)
    n = len(specs)
    data = [dat(i, nchunks) for i in range(n)]
    w, pol, st, me, refs, (sched,) = par_setup(c, FLOW, specs, {'d%d' % i: d for i, d in enumerate(data)})
    fi = prog.method(prog.find_class(FLOW), 'get_task')
    loc = fi.loc()
    its = st.alloc(HList([Tok('d%d' % i) for i in range(n)]))
    want, _ = expected(specs, data)

    def obs(s, name):
        return [v for v in phase_field(w, s, me, name)]

    def refused(s, meth, args, what, kw=None):
        for kind, val, s2 in w.run_method(s, me, meth, args, kw or {}):
            ok = kind == RAISE and exc_is(prog, val, ('ParallelFlowException', 'NoTaskException'))
            c.obl('refused', label, ok and not [e for e in parops(s2)[len(parops(s)):]], loc, '%s %s ends in %s' %
                  (meth, what, 'a normal return' if kind == RETURN else val.name), par_lines(s2))
    refused(st, 'get_task', [], 'without anything underway')
    states = [(s, False) for k, v, s in w.run_method(st, me, 'setup_parallel_training', [its]) if k == RETURN]
    c.obl('completes', label, bool(states), loc, 'setup fails')
    done = []
    for _ in range(40):
        nxt = []
        for s, inphase in states:
            tr = obs(s, 'is_parallel_training')
            av = obs(s, 'task_available')
            if tr == [FALSE]:
                c.obl('observers', label, av == [FALSE], loc, 'tasks are available after the training has ended', par_lines(s))
                refused(s, 'get_task', [], 'after the training has ended')
                done.append(s)
                continue
            c.obl('observers', label, tr == [TRUE] and av in ([TRUE], [FALSE]), loc, 'is_parallel_training is %s and task_available %s during training' %
                  ([show(x) for x in tr], [show(x) for x in av]), par_lines(s))
            refused(s, 'setup_parallel_training', [its], 'during parallel training')
            refused(s, 'setup_parallel_execution', [Tok('d0')], 'during parallel training')
            refused(s, 'train', [its], 'during parallel training', {'scheduler': sched})
            refused(s, 'execute', [Tok('d0')], 'during parallel training')
            if av == [TRUE]:
                for kind, val, s2 in w.run_method(s, me, 'get_task'):
                    ok = kind == RETURN and val.tag == 'tup' and len(val.k) == 3
                    c.obl('observers', label, ok, loc, 'get_task gives no task although one is available', par_lines(s2))
                    if ok:
                        for v, s3 in pol.sched_call(w, sched, 'add_task', list(val.k[1:]), {}, _N, fi, s2):
                            c.obl('completes', label, v == NONE, loc, 'task fails with %s' % getattr(v, 'name', ''), par_lines(s3))
                            if v == NONE:
                                nxt.append((s3, True))
            else:
                refused(s, 'get_task', [], 'without available tasks')
                for v, s2 in pol.sched_call(w, sched, 'get_results', [], {}, _N, fi, s):
                    for kind, val, s3 in w.run_method(s2, me, 'use_results', [v]):
                        c.obl('completes', label, kind == RETURN, loc, 'use_results fails with %s' % getattr(val, 'name', ''), par_lines(s3))
                        if kind == RETURN:
                            nxt.append((s3, False))
        states = nxt
        if not states:
            break
    c.obl('completes', label, bool(done), loc, 'the training never ends')
    for s in done:
        got = stops(s)
        c.obl('phase-data', label, got == want, loc, 'the phases are closed as %s instead of %s' % (got, want), par_lines(s))
    c.visits(w)


def no_scheduler(c):
    from .flowmodel import NodeSpec
    from .flowtrain import check_training
    for cls, extra in ((FLOW, []), (CPFLOW, [NONE])):
        for specs in ([NodeSpec(1)], [NodeSpec(2), NodeSpec(1)], [NodeSpec(0), NodeSpec(1), NodeSpec(2)]):
            data = [Iterable([Tok('x%da' % i), Tok('x%db' % i)]) for i in range(len(specs))]
            check_training(c, cls, '%s without scheduler[%s]' % (cls.rpartition('.')[2], ','.join(str(s.phases) for s in specs)), specs, data, extra=extra)
