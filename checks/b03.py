"""BiFlow.train: training with jumps and messages."""
import itertools

from sa.bimodel import BiModelPolicy, Oracle, PASS, Refused, Spec, msgdict, observed, oplines
from sa.flowmodel import Iterable, text
from sa.proto import Hook, Tok, hook_name
from sa.walker import Const, FALSE, HDict, HList, NONE, RAISE, RETURN, Walker, show
from checks.b02 import resets_ok, where

TITLE = 'BiFlow.train gives each node its data, messages and stop messages'
RULES = ('BiFlow.train is interpreted over contract nodes with scripted results of execute, train and stop_training for every form of data, message and stop message. The sequence of '
         'node calls with data, message and phase, the resets and the refusals are compared with a direct reading of the documented training rules.')
ASSUMPTIONS = ['message iterables are at least as long as the data iterables (documented)', 'a stop message is given only for bi-nodes', 'scripts of model nodes are finite']
FLOW = 'bimdp.biflow.BiFlow'


CFLOW = 'bimdp.biflow.BiCheckpointFlow'


class TrainPolicy(BiModelPolicy):
    """checkpoint functions are hooks that get the trained node"""
    def intercept(self, w, f, args, kw, n, fi, st):
        h = hook_name(f)
        if h is not None and h.startswith('cp:'):
            nm = self.model(st, args[0]) if len(args) == 1 and not kw else None
            st = st.copy()
            st.add_event('nodeop', n, fi, op='checkpoint', who=nm, x='', msg=None)
            if h == 'cp:dict' and nm:
                return [(st.alloc(HDict([(Const('cp_' + nm), Tok('value' + nm[1:]))])), st)]
            return [(NONE, st)]
        return BiModelPolicy.intercept(self, w, f, args, kw, n, fi, st)


class Case(object):
    def __init__(self, specs, form='lists', nchunks=1, msgs=None, stops=None, oneshot=(), empty=(), skip=(), cps=None):
        self.cps = cps            # checkpoint functions: None, 'single' or a result per node ('no', None, 'dict')
        self.specs, self.form, self.nchunks, self.msgs, self.stops = specs, form, nchunks, msgs, stops
        self.oneshot, self.empty, self.skip = set(oneshot), set(empty), set(skip)

    def chunks(self, i):
        if i in self.empty:
            return 0
        return 1 if self.form in ('array',) else self.nchunks

    def x(self, i, k):
        if self.form == 'nodata':
            return 'None'
        return 'x' if self.form == 'array' else 'x%d%d' % (i, k)

    def msg(self, i, k):
        """message for chunk k of node i"""
        if not self.msgs:
            return None
        if self.form == 'array':
            return {'a': 'a', 'n0->k': 'k0', 'n1->k': 'k1', 'z->k': 'z'}
        return {'a': 'a%d%d' % (i, k), 'n0->k': 'k0%d%d' % (i, k), 'n1->k': 'k1%d%d' % (i, k)} if self.msgs == 'all' or k == 0 else None

    def label(self):
        out = ' | '.join('%d*%s' % (s.phases, s) for s in self.specs)
        extra = [self.form]
        if self.form == 'lists':
            extra.append(str(self.nchunks))
        for nm in ('msgs', 'oneshot', 'empty', 'skip'):
            v = getattr(self, nm)
            if v:
                extra.append('%s=%s' % (nm, v if isinstance(v, str) else ','.join(str(i) for i in sorted(v))))
        if self.cps:
            extra.append('checkpoints=%s' % ','.join(str(x) for x in self.cps))
        if self.stops:
            extra.append('stops=%s' % ','.join('-' if m is None else '+'.join(sorted(m)) for m in self.stops))
        return '(%s)[%s]' % (out, ' '.join(extra))


def expected(case):
    """-> (log, refused?)"""
    o = Oracle(case.specs)
    n = len(case.specs)
    try:
        for i, sp in enumerate(case.specs):
            used = False
            for p in range(sp.phases):
                chunks = case.chunks(i)
                if i in case.skip or (used and i in case.oneshot):
                    chunks = 0
                used = True
                for k in range(chunks):
                    chunk(o, i, p, case.x(i, k), case.msg(i, k))
                    o.log.append(('reset',))
                if not chunks:
                    raise Refused('no data')
                stop(o, i, p, case.stops[i] if case.stops else None)
                o.log.append(('reset',))
            if case.cps and case.cps[i] != 'no':
                o.log.append(('checkpoint', 'n%d' % i, '', None))
    except Refused:
        return o.log, True
    return o.log, False


def chunk(o, i, p, x, msg):
    sp, nm = o.specs[i], 'n%d' % i
    start = 0
    while True:
        x, msg, end = o.run(x, msg, start, stop=i)
        if end != 'stop':
            raise Refused('training node not reached')
        o.log.append(('train%d' % p, nm, x, (None if msg is None else dict(msg)) if sp.bi else None))
        if not sp.bi:
            return
        k = o.trained[i]
        o.trained[i] += 1
        a = sp.train[k] if k < len(sp.train) else None
        if a is None:
            return
        x, msg, t = o.result(nm, 't', k, a, x, msg, 1)
        start = o.index(t, i)
        if not (isinstance(start, int) and 0 <= start < len(o.specs)):
            raise Refused('no such node')


def stop(o, i, p, msg):
    sp, nm = o.specs[i], 'n%d' % i
    o.log.append(('stop%d' % p, nm, '', dict(msg) if msg is not None and sp.bi else None))
    o.phase[i] = p + 1
    if not sp.bi:
        return
    a = sp.stop[p] if p < len(sp.stop) else None
    if a is None:
        return
    x, msg, t = o.result(nm, 's', p, a, 'None', msg, 1)
    start = o.index(t, i)
    x, msg, end = o.run(x, msg, start)
    if isinstance(end, tuple):
        raise Refused('target not found')


# -------------------------------------------------------------------- program
def check_case(c, case):
    c.count('cases')
    want, refused = expected(case)
    pol = TrainPolicy(c.prog, case.specs)
    w = Walker(c.prog, pol)
    st = w.new_state()
    refs = pol.make(st, w)
    kept = []

    def msg(d):
        if d is None:
            return NONE
        ref = st.alloc(HDict([(Const(k), Tok(v)) for k, v in sorted(d.items())]))
        kept.append((ref, dict(d)))
        return ref
    n = len(case.specs)
    mi = NONE
    if case.form == 'array':
        pol.arrays.add('x')
        di = Tok('x')
        if case.msgs:
            mi = msg(case.msg(0, 0))
    else:
        data, ms = [], []
        for i in range(n):
            if i in case.skip:
                data.append(NONE)
                ms.append(NONE)
                continue
            xs = [Tok(case.x(i, k)) for k in range(case.chunks(i))]
            if case.form == 'nodata':
                data.append(NONE)
            elif i in case.oneshot:
                pol.iterables['it%d' % i] = Iterable(xs, True)
                data.append(Tok('it%d' % i))
            else:
                data.append(st.alloc(HList(xs)))
            ms.append(st.alloc(HList([msg(case.msg(i, k)) for k in range(case.chunks(i))])))
        di = NONE if case.form == 'nodata' else st.alloc(HList(data))
        if case.msgs:
            mi = st.alloc(HList(ms))
    sm = NONE
    if case.stops:
        sm = st.alloc(HList([msg(d) for d in case.stops]))
    args = [di, mi, sm]
    if case.cps:
        cps = [NONE if x == 'no' else Hook('cp:%s' % x) for x in case.cps]
        args = [di, cps[0] if len(set(case.cps)) == 1 and case.nchunks == 1 else st.alloc(HList(cps)), mi, sm]
    fl = w.new_obj(st, c.prog.find_class(CFLOW if case.cps else FLOW), 'biflow', {'flow': st.alloc(HList(refs)), 'verbose': FALSE, '_crash_recovery': FALSE})
    lab = case.label()
    for kind, v, s in w.run_method(st, fl, 'train', args):
        c.count('paths')
        got = [e for e in observed(s) if e[0] != 'early']
        calls = [e for e in got if e[0] != 'reset']
        wl = [e for e in want if e[0] != 'reset']
        if refused:
            c.obl('refused', lab, kind == RAISE, where(s), 'train ends normally instead of refusing', oplines(calls))
        elif not c.obl('works', lab, kind == RETURN, where(s), 'train ends in %s' % (v.name if kind == RAISE else ''), oplines(calls)):
            continue
        c.obl('call-sequence', lab, calls == wl, where(s), first_difference(calls, wl), oplines(calls))
        if not refused:
            bis = ['n%d' % i for i, sp in enumerate(case.specs) if sp.bi]
            c.obl('resets', lab, resets_ok(got, want, bis), where(s), 'the bi-nodes are not all reset before the first and after each chunk and phase', oplines([(e[0], e[1], '', None) for e in got]))
        if case.cps and not refused:
            for i, x in enumerate(case.cps):
                if x == 'dict':
                    c.obl('checkpoint-result', lab, s.obj(fl).fields.get('cp_n%d' % i) == Tok('value%d' % i), where(s), 'the result of the checkpoint function of node %d is not stored in the flow' % i)
        for ref, d in kept:
            if not c.obl('message-kept', lab, msgdict(s, ref) == d, where(s), 'a message given by the user becomes %s' % msgdict(s, ref)):
                break
    c.visits(w)


def first_difference(got, want):
    for k in range(max(len(got), len(want))):
        g = oplines(got[k:k + 1]) or ['nothing']
        h = oplines(want[k:k + 1]) or ['nothing']
        if g != h:
            return 'step %d is %s instead of %s' % (k, g[0], h[0])
    return ''


# ---------------------------------------------------------------------- cases
def cases(tier):
    full = tier == 'thorough'
    # plain data flow: phases, forms, messages
    nodes = [Spec(True, phases=p) for p in (0, 1, 2)] + [Spec(False, phases=p) for p in (0, 1, 2)]
    for n in (1, 2, 3):
        for combo in itertools.product(nodes, repeat=n):
            if n == 3 and not full and sum(s.phases for s in combo) not in (2, 3):
                continue
            if n == 3 and not full and (sum(s.bi for s in combo) + sum((i + 1) * s.phases for i, s in enumerate(combo))) % 3:
                continue
            yield Case(list(combo), 'lists', 2, 'all')
            yield Case(list(combo), 'array', 1, 'all')
            if n < 3 or full:
                yield Case(list(combo), 'lists', 2, 'some')
                yield Case(list(combo), 'array')
                yield Case(list(combo), 'lists', 2)
                stops = [{'a': 's%d' % i, 'n%d->k' % i: 't%d' % i, 'z->k': 'u%d' % i} if s.bi else None for i, s in enumerate(combo)]
                yield Case(list(combo), 'lists', 1, None, stops)
                for i in range(n):
                    yield Case(list(combo), 'lists', 2, 'all', None, [i])
                    yield Case(list(combo), 'lists', 2, None, None, (), [i])
                    if not combo[i].phases:
                        yield Case(list(combo), 'lists', 1, None, None, (), (), [i])
                if all(s.bi for s in combo):
                    yield Case(list(combo), 'nodata', 2, 'all')
    # checkpoints
    for combo in itertools.product(nodes[:2] + nodes[-1:], repeat=2):
        for cps in itertools.product(('no', None, 'dict'), repeat=2):
            yield Case(list(combo), 'lists', 2, 'all', cps=cps)
            if len(set(cps)) == 1:
                yield Case(list(combo), 'lists', 1, cps=cps)
                yield Case(list(combo), 'array', cps=cps)
    # results of train that continue the execution
    xs = [('y', m, t) for m in ('drop', 'pass', 'new', 'for', None) for t in (None, -1, 0, 1, -2, 2, 'n0', 'n1', 'n2', 'missing', 'exit') if not (m == 'drop' and t is not None)]
    for a in xs:
        for specs in ([BI(), Spec(True, phases=1, train=[a])], [Spec(True, phases=1, train=[a]), BI()], [BI(), BI(), Spec(True, phases=1, train=[a, ('y', 'new', 'n1')])],
                      [BI(), Spec(True, phases=2, train=[a, None, a]), PL()], [PL(), Spec(True, phases=1, train=[None, a]), BI()],
                      [BI(), Spec(True, phases=1, train=[a]), Spec(True, [('y', 'new', -1), ('y', 'both', -2)])]):
            yield Case(specs, 'lists', 2, 'all')
    # results of stop_training
    for a in xs + [(None, 'new', t) for t in (None, 1, -1, 'n0', 'exit', 'missing')]:
        for specs in ([BI(), Spec(True, phases=1, stop=[a])], [Spec(True, phases=1, stop=[a]), BI()], [BI(), Spec(True, phases=1, stop=[a]), PL()],
                      [Spec(True, phases=1, stop=[a])], [BI(), BI(), Spec(True, phases=2, stop=[('y', 'new', 'exit'), a])],
                      [Spec(True, [PASS, ('y', 'both', 'exit')]), Spec(True, phases=1, stop=[a]), Spec(True, [('y', 'for', 'n0')])]):
            stops = [{'a': 's%d' % i, 'n0->k': 't%d' % i, 'n1->k': 'v%d' % i} if s.phases and len(specs) > 1 else None for i, s in enumerate(specs)]
            yield Case(specs, 'lists', 1, None, stops)
            if len(specs) < 3 or full:
                yield Case(specs, 'array', 1, 'all')
    # nodes on the way that jump
    for a in [('y', 'new', 'n2'), ('y', 'pass', 'exit'), ('y', 'drop', None), ('y', None, -1), ('y', 'for', 2), ('y', 'both', 'missing')]:
        yield Case([Spec(True, [a, PASS, a]), BI(), Spec(True, phases=2)], 'lists', 2, 'all')
        yield Case([BI(), Spec(True, [a]), Spec(False, phases=1)], 'lists', 2, 'all')


def BI():
    return Spec(True)


def PL():
    return Spec(False)


def run(c):
    for case in cases(c.tier):
        check_case(c, case)
    c.need('cases', 300)
    c.need('paths', 300)
