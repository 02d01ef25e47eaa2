"""BiFlow.execute: routing of data and messages."""
import itertools
import re

from sa.bimodel import BiModelPolicy, DROP, Oracle, PASS, Refused, Spec, ARR, msgdict, observed, oplines
from sa.flowmodel import Iterable, text
from sa.proto import Tok, exc_is, trace_lines
from sa.walker import Const, FALSE, HDict, HList, NONE, RAISE, RETURN, Tup, Walker, cval, is_const, show

TITLE = 'BiFlow.execute follows targets and carries messages as documented'
RULES = ('BiFlow.execute is interpreted over contract nodes (bi-nodes with scripted results, plain nodes) for every form of data, message and target. The sequence of node calls with '
         'data and message, the resets, the joined results and the refusals are compared with a direct reading of the documented routing rules.')
ASSUMPTIONS = ['message iterables are at least as long as the data iterable (documented)', 'scripts of model nodes are finite']
FLOW = 'bimdp.biflow.BiFlow'

XS = ['y', None]
MS = ['drop', None, 'pass', 'new', 'both', 'arr', 'for']
TS = [None, 1, -1, 0, 2, -2, 3, 'n0', 'n1', 'n2', 'missing', 'exit']


class Case(object):
    def __init__(self, specs, form, msgs=None, targets=None, nchunks=1):
        self.specs, self.form, self.msgs, self.targets, self.nchunks = specs, form, msgs, targets, nchunks

    def label(self):
        m = '' if self.msgs is None else ' m=%s' % ';'.join('None' if d is None else '+'.join(sorted(d)) or '{}' for d in self.msgs)
        t = '' if self.targets is None else ' t=%s' % ';'.join(str(t) for t in self.targets)
        return '(%s)[%s%s%s]' % (' | '.join(str(s) for s in self.specs), self.form, m, t)


# -------------------------------------------------------------------- oracle
def expected(case):
    """-> (log, y text or None, message dict) or (log, 'refused', None)"""
    o = Oracle(case.specs)
    n = len(case.specs)
    chunks = case.nchunks
    ys, msgs, logs = [], [], []
    for k in range(chunks):
        x = 'None' if case.form.startswith('none') else 'x%d' % k
        m = case.msgs[k] if case.msgs is not None else None
        t = case.targets[k] if case.targets is not None else None
        i = 0
        if t:
            i = o.index(t, 0)
        try:
            if not (isinstance(i, int) and 0 <= i < n):
                raise Refused('start target')
            y, msg, end = o.run(x, m, i)
            if isinstance(end, tuple):
                raise Refused('target not found')
        except Refused:
            return o.log, 'refused', None
        ys.append(None if y == 'None' or y is None else y)
        msgs.append(msg or {})
        if len({y is None for y in ys}) > 1:
            return o.log, 'refused', None
        o.log.append(('reset',))
    if not chunks:
        return o.log, 'refused', None
    out = {}
    for m in msgs:
        for key, v in m.items():
            out.setdefault(key, []).append(v)
    for key, vs in out.items():
        if len({v.startswith('arr:') for v in vs}) > 1:
            return o.log, 'refused', None
    y = None if ys[0] is None else 'cat[%s]' % ', '.join(ys)
    return o.log, y, out


# -------------------------------------------------------------------- program
def source(case, st, pol):
    """abstract arguments -> (iterable, msg_iterable, target_iterable, message objects)"""
    def msg(d):
        return NONE if d is None else st.alloc(HDict([(Const(k), Tok(v)) for k, v in sorted(d.items())]))
    ms = [msg(d) for d in case.msgs] if case.msgs is not None else None
    ts = [NONE if t is None else Const(t) for t in case.targets] if case.targets is not None else None
    f = case.form
    if f in ('array', 'none'):
        x = NONE
        if f == 'array':
            pol.arrays.add('x0')
            x = Tok('x0')
        return x, (ms[0] if ms else NONE), (ts[0] if ts else NONE), ms
    xs = [Tok('x%d' % k) for k in range(case.nchunks)]

    def seq(vals, nm):
        if vals is None:
            return NONE
        if f.endswith('oneshot'):
            pol.iterables[nm] = Iterable(vals, True)
            return Tok(nm)
        return st.alloc(HList(vals))
    return (NONE if f.startswith('none') else seq(xs, 'it')), seq(ms, 'mit'), seq(ts, 'tit'), ms


def check_case(c, case):
    c.count('cases')
    want_log, want_y, want_m = expected(case)
    pol = BiModelPolicy(c.prog, case.specs)
    w = Walker(c.prog, pol)
    st = w.new_state()
    refs = pol.make(st, w)
    x, mi, ti, ms = source(case, st, pol)
    fl = w.new_obj(st, c.prog.find_class(FLOW), 'biflow', {'flow': st.alloc(HList(refs)), 'verbose': FALSE, '_crash_recovery': FALSE})
    lab = case.label()
    for kind, v, s in w.run_method(st, fl, 'execute', [x, mi, ti]):
        c.count('paths')
        judge(c, case, lab, kind, v, s, want_log, want_y, want_m, ms)
    c.visits(w)


def nested_log(log):
    return [e for e in log if e[0] not in ('reset',)]


def where(s):
    for e in reversed(s.trace):
        if e.fi is not None and e.kind in ('nodeop', 'call', 'branch', 'raised', 'store', 'enter', 'mutate') and ':0' not in e.loc():
            return e.loc()
    return ''


def judge(c, case, lab, kind, v, s, want_log, want_y, want_m, ms):
    got = observed(s)
    path = lambda: oplines([e for e in got if e[0] != 'reset'])
    if want_y == 'refused':
        c.obl('refused', lab, kind == RAISE, where(s), 'execute returns %s instead of refusing' % show(v), path())
        if kind == RAISE and any('bad' in sp.script for sp in case.specs):
            c.obl('refused', lab + ':exception', exc_is(c.prog, v, ['BiFlowException']), where(s), 'an invalid node result ends in %s' % v.name)
        # nothing runs beyond the point of the refusal
        calls = [e for e in got if e[0] != 'reset']
        wl = [e for e in want_log if e[0] != 'reset']
        if kind == RAISE:
            c.obl('call-sequence', lab, calls == wl, where(s), 'the node calls before the refusal are %s instead of %s' % (oplines(calls), oplines(wl)))
        return
    if not c.obl('works', lab, kind == RETURN, where(s), 'execute ends in %s' % (v.name if kind == RAISE else ''), path()):
        return
    calls = [e for e in got if e[0] != 'reset']
    wl = [e for e in want_log if e[0] != 'reset']
    c.obl('call-sequence', lab, calls == wl, where(s), 'the node calls are %s instead of %s' % (oplines(calls), oplines(wl)), path())
    ok = v.tag == 'tup' and len(v.k) == 3
    c.obl('result-form', lab, ok, where(s), 'execute returns %s instead of (y, msg)' % show(v))
    if ok:
        y, m = v.k[1], v.k[2]
        if want_y is None:
            c.obl('result-data', lab, y in (NONE, FALSE), where(s), 'the result is %s although every chunk gave None' % show(y))
        else:
            c.obl('result-data', lab, text(y) == want_y, where(s), 'the result is %s instead of %s' % (text(y), want_y))
        c.obl('result-message', lab, same_messages(s, m, want_m), where(s), 'the joined message is %s instead of %s' % (msgdict(s, m), want_m))
    # resets around every chunk
    bis = ['n%d' % i for i, sp in enumerate(case.specs) if sp.bi]
    c.obl('resets', lab, resets_ok(got, want_log, bis), where(s), 'the bi-nodes are not all reset before the first and after each chunk', path())
    for d, ref in zip(case.msgs or [], ms or []):
        if d is not None:
            c.obl('message-kept', lab, msgdict(s, ref) == d, where(s), 'the message given by the user becomes %s' % msgdict(s, ref))


def resets_ok(got, want_log, bis):
    """all nodes reset before the first call and after the calls of each chunk"""
    groups, cur = [], []
    for e in want_log:
        if e[0] == 'reset':
            groups.append(cur)
            cur = []
        else:
            cur.append(e)
    # walk through the observed operations
    pos = 0

    def take_resets():
        nonlocal pos
        seen = set()
        while pos < len(got) and got[pos][0] == 'reset':
            seen.add(got[pos][1])
            pos += 1
        return seen == set(bis)
    if not take_resets():
        return False
    for g in groups:
        for e in g:
            if pos >= len(got) or got[pos] != e:
                return True          # reported by call-sequence
            pos += 1
        if not take_resets():
            return False
    return True


def atoms(v):
    """values added up to v"""
    return re.findall(r'@([^ ]+)', show(v))


def same_messages(s, m, want):
    o = s.obj(m)
    if not isinstance(o, HDict):
        return False
    got = {cval(k): x for k, x in o.items}
    if set(got) != set(want):
        return False
    for k, vs in want.items():
        if vs[0].startswith('arr:'):
            if text(got[k]) != 'cat[%s]' % ', '.join(vs):
                return False
        elif sorted(atoms(got[k])) != sorted(vs):
            return False
    return True


# ---------------------------------------------------------------------- cases
def answers(tier):
    return [(x, m, t) for x in XS for m in MS for t in TS if not (m == 'drop' and (t is not None or x is None))]


BI, PL = Spec(True), Spec(False)
M0 = {'a': 'a0'}
M2 = {'a': 'a2', 'z': 'z2'}
M1 = {'a': 'a1', 'n0->k': 'k0', 'n1->k': 'k1', 'n2->k': 'k2', 'other->k': 'k3'}


def cases(tier):
    # one scripted answer at each position
    for n in (1, 2, 3):
        for pos in range(n):
            for rest in itertools.product((True, False), repeat=n - 1):
                if n == 3 and tier == 'quick' and rest in ((True, False), (False, False)):
                    continue
                for a in answers(tier):
                    specs = [Spec(b) for b in rest]
                    specs.insert(pos, Spec(True, [a]))
                    k = len(str(a)) + pos + n
                    if tier == 'quick' and n == 3 and a[0] is None and k % 3:
                        continue
                    yield Case(specs, 'array', [[None, M0, M1][k % 3]])
    for n, pos in ((1, 0), (2, 0), (2, 1)):
        yield Case([Spec(True, ['bad'] if i == pos else ()) for i in range(n)], 'array', [M0])
    # two jumps
    for a, b in itertools.product([('y', 'new', 'n0'), ('y', 'pass', -1), ('y', 'for', -2), ('y', 'both', 0), (None, 'arr', 'n1')], repeat=2):
        yield Case([BI, Spec(True, [a]), Spec(True, [b])], 'array', [M1])
        yield Case([Spec(True, [PASS, b]), PL, Spec(True, [a, ('y', 'new', 1)])], 'array', [M0])
        yield Case([BI, Spec(True, [a, b]), PL], 'array', [None])
    # start targets and forms of the data
    for t in [None, 0, 1, 2, 3, -1, 'n0', 'n1', 'missing', 'exit', '']:
        for specs in ([BI, BI, BI], [BI, BI, PL], [BI, PL], [PL, BI, BI]):
            yield Case(specs, 'array', [M1], [t])
            yield Case(specs, 'list', [M0, None], [t, None], 2)
            yield Case([s for s in specs if s.bi], 'none', [M0], [t])
    for form in ('list', 'oneshot'):
        for n in (0, 1, 2, 3):
            for msgs in (None, [M0, M1, M2], [None, M1, {}]):
                for specs in ([BI], [PL], [BI, PL], [Spec(True, [('y', 'arr', None)] * 3), BI], [Spec(True, [('y', 'arr', None), ('y', 'new', None)]), BI],
                              [Spec(True, [(None, 'new', None), ('y', 'new', None)])], [Spec(True, [('y', 'new', None), (None, 'new', None)])],
                              [Spec(True, [(None, 'arr', 'exit')] * 3), PL], [BI, Spec(True, [('y', 'both', 'exit'), ('y', 'drop', None), ('y', 'for', 'n0')])]):
                    yield Case(specs, form, msgs and msgs[:n], None, n)
    for msgs in ([M0], [M1, M0], [{}, M1]):
        for specs in ([BI], [Spec(True, [('y', 'new', None)] * 2), BI]):
            yield Case(specs, 'nonelist', msgs, None, len(msgs))


def run(c):
    for case in cases(c.tier):
        check_case(c, case)
    c.need('cases', 300)
    c.need('paths', 300)
