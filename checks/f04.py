"""Checkpoints of a CheckpointFlow."""
import itertools

from sa.flowmodel import Iterable, NodeModelPolicy, NodeSpec, nodeops, op_lines, text
from sa.flowtrain import FLOWEXC, check_training, last_loc, setup
from sa.proto import Hook, Tok, exc_is, hook_events, hook_name
from sa.walker import Const, HDict, HList, NONE, RAISE, RETURN, show

TITLE = 'Each checkpoint runs exactly once, on its node, when its training data is used up'
RULES = ('Abstract interpretation of CheckpointFlow.train over the node contract with arbitrary checkpoint functions: for '
         'every path (any node step or checkpoint may fail) the position, argument and number of the checkpoint calls, '
         'the use of their results and the training sequence itself are compared with the documented protocol.')
ASSUMPTIONS = ['nodes obey the phase contract (L01, L02)']
CLS = 'mdp.linear_flows.CheckpointFlow'


class CPolicy(NodeModelPolicy):
    results = {}

    def intercept(self, w, f, args, kw, n, fi, st):
        h = hook_name(f)
        if h is not None and h.startswith('cp'):
            out = []
            for v, s in w.call_opaque(f, args, kw, n, _C(fi), st):
                if hasattr(v, 'tag') and self.results.get(h) == 'dict':
                    s = s.copy()
                    v = s.alloc(HDict([(Const('added_' + h), Tok('value_' + h))]))
                elif hasattr(v, 'tag') and self.results.get(h) == 'empty':
                    s = s.copy()
                    v = s.alloc(HDict())
                elif hasattr(v, 'tag'):
                    v = NONE
                out.append((v, s))
            return out
        return NodeModelPolicy.intercept(self, w, f, args, kw, n, fi, st)


class _C(object):
    def __init__(self, fi):
        self.fi = fi


def run(c):
    # the training itself follows the same protocol as Flow.train
    for specs in ([NodeSpec(1)], [NodeSpec(2), NodeSpec(1)], [NodeSpec(0), NodeSpec(1), NodeSpec(2)], [NodeSpec(1, req=1), NodeSpec(1)]):
        data = []
        for i, sp in enumerate(specs):
            data.append(Iterable([Tok('x%da' % i), Tok('x%db' % i)]) if not sp.req else None)
        lab = 'CheckpointFlow[%s]' % ','.join('%d%s' % (s.phases, 's' if s.req else '') for s in specs)
        check_training(c, CLS, lab, specs, data, extra=[NONE])
    specsets = [[NodeSpec(1)], [NodeSpec(1), NodeSpec(2)], [NodeSpec(1), NodeSpec(0), NodeSpec(1)], [NodeSpec(1, done=1), NodeSpec(1)]]
    for specs in specsets:
        n = len(specs)
        for pat in itertools.product(('none', 'null', 'dict', 'empty'), repeat=n):
            if n == 3 and c.tier != 'thorough' and len(set(pat)) < 3:
                continue
            one(c, specs, pat)
        one(c, specs, ('dict',) * n, shared=True)
    malformed(c)
    c.need('checkpoint scenarios', 20)


def one(c, specs, pat, shared=False):
    prog = c.prog
    n = len(specs)
    its = {'d%d' % i: Iterable([Tok('x%da' % i), Tok('x%db' % i)]) for i in range(n)}
    w, pol, st, me, refs = setup(c, CLS, specs, its, policy=CPolicy)
    pol.results = {('cp' if shared else 'cp%d' % i): p for i, p in enumerate(pat)}
    label = 'CheckpointFlow[%s;%s%s]' % (','.join('%d%s' % (s.phases, '' if not s.done else 'd') for s in specs), ','.join(pat), ';shared' if shared else '')
    data = st.alloc(HList([Tok('d%d' % i) for i in range(n)]))
    if shared:
        cps = Hook('cp')
    else:
        cps = st.alloc(HList([NONE if p == 'none' else Hook('cp%d' % i) for i, p in enumerate(pat)]))
    active = [i for i in range(n) if shared or pat[i] != 'none']
    loc0 = prog.method(prog.find_class(CLS), 'train').loc()
    good = 0
    res = w.run_method(st, me, 'train', [data, cps])
    c.visits(w)
    c.count('checkpoint scenarios')
    c.count('checkpoint paths', len(res))
    for kind, val, s in res:
        path, loc = op_lines(s), last_loc(s, 0, loc0)
        seq = []        # ('train', i) / ('cp', i, ok)
        for e in s.trace:
            if e.kind == 'nodeop' and e.op == 'train' and not e.failed:
                seq.append(('train', int(e.who[1:])))
            elif e.kind == 'nodeop' and e.failed:
                seq.append(('fail', int(e.who[1:])))
            elif e.kind == 'call' and (hook_name(e.callee) or '').startswith('cp'):
                at = [i for i, r in enumerate(refs) if tuple(e.args) == (r,)]
                c.obl('argument', label, len(at) == 1 and (shared or hook_name(e.callee) == 'cp%d' % at[0]), e.loc(),
                      'checkpoint %s is called with %s, not with its node alone' % (hook_name(e.callee), [show(a) for a in e.args]), path)
                seq.append(('cp', at[0] if at else -1))
            elif e.kind == 'raised' and (hook_name(e.callee) or '').startswith('cp'):
                seq.append(('cpfail',))
        want = []
        for i, sp in enumerate(specs):
            for p in range(sp.done, sp.phases):
                want += [('train', i)] * 2
            if i in active:
                want.append(('cp', i))
        got = [x for x in seq if x[0] in ('train', 'cp')]
        c.obl('order', label, got == want[:len(got)], loc, 'checkpoints and training steps come as %s, expected %s' % (got, want), path)
        bad = [x for x in seq if x[0] in ('fail', 'cpfail')]
        if bad:
            c.obl('failure-reported', label, kind == RAISE, loc, 'a failing %s does not reach the caller'
                  % ('checkpoint' if bad[0][0] == 'cpfail' else 'node'), path)
            continue
        c.obl('completes', label, kind == RETURN, loc, 'training fails with %s although no step failed' % (val.name if kind == RAISE else ''), path)
        if kind == RETURN:
            good += 1
            c.obl('all-called', label, got == want, loc, 'training returns after %s, expected %s' % (got, want), path)
            for h, p in pol.results.items():
                if p == 'dict':
                    c.obl('result-merged', label, s.obj(me).fields.get('added_' + h) == Tok('value_' + h), loc,
                          'the dictionary returned by checkpoint %s is not added to the flow' % h, path)
    c.obl('completes', label, good > 0, loc0, 'no path completes')


def malformed(c):
    for lab, k in (('too-few', 1), ('too-many', 3)):
        its = {'d0': Iterable([Tok('xa')])}
        w, pol, st, me, refs = setup(c, CLS, [NodeSpec(1), NodeSpec(1)], its, policy=CPolicy)
        data = st.alloc(HList([Tok('d0'), Tok('d0')]))
        cps = st.alloc(HList([Hook('cp%d' % i) for i in range(k)]))
        for kind, val, s in w.run_method(st, me, 'train', [data, cps]):
            ok = kind == RAISE and exc_is(c.prog, val, FLOWEXC) and not nodeops(s)
            c.obl('malformed-refused', 'CheckpointFlow[%s]' % lab, ok, last_loc(s, 0),
                  'a checkpoint list of the wrong length ends in %s' % ('a normal return' if kind == RETURN else val.name), op_lines(s))
