"""Flow.train drives every node through its phases with exactly its own data."""
import itertools

from sa.flowmodel import Iterable, NodeSpec, nodeops, op_lines
from sa.flowtrain import (FLOWEXC, check_training, data_choices, last_loc, node_choices, setup)
from sa.proto import Tok, exc_is
from sa.walker import Const, HList, NONE, RAISE, RETURN, Tup

TITLE = 'Flow training gives each node its own data, phase by phase, after its predecessors'
RULES = ('Abstract interpretation of the training code of each sequential flow class over the node contract: nodes of 0-3 '
         'phases, partly or completely trained before, with required and optional training arguments, fed from lists, '
         'one-shot iterators, empty iterators, None or one array. The sequence of training and closing calls on every '
         'path (each node step may fail) is compared with the prescribed sequence; data provenance is tracked by name.')
ASSUMPTIONS = ['nodes obey the phase contract (L01, L02)', 'node steps fail with an Exception that is no MDP exception']

CLASSES = ['mdp.linear_flows.Flow']


def scenarios(n, thorough):
    per = []
    for i in range(n):
        ch = []
        for nl, sp in node_choices(thorough):
            for dl, d in data_choices(i, sp, thorough):
                ch.append((nl + ':' + dl, sp, d))
        per.append(ch)
    return per


def run(c):
    thorough = c.tier == 'thorough'
    prog = c.prog
    for cls in CLASSES:
        name = cls.rpartition('.')[2]
        # every node/data combination at the only, first, middle and last position
        (ch,) = scenarios(1, thorough)
        for l, sp, d in ch:
            check_training(c, cls, '%s[%s]' % (name, l), [sp], [d])
        p2 = scenarios(2, thorough)
        good = {'fixed:list2', 'one:list2', 'two:list2', 'sup:list2', 'done:none', 'fixed:none'}
        for a, b in itertools.product(*p2):
            if not thorough and a[0] not in good and b[0] not in good:
                continue
            check_training(c, cls, '%s[%s,%s]' % (name, a[0], b[0]), [a[1], b[1]], [a[2], b[2]])
        p3 = scenarios(3, False)
        for a, b, d in itertools.product(*p3):
            names = (a[0], b[0], d[0])
            if sum(1 for x in names if x in good) < (3 if not thorough else 2):
                continue
            if not thorough and a[0].split(':')[0] == b[0].split(':')[0] == d[0].split(':')[0]:
                continue
            check_training(c, cls, '%s[%s]' % (name, ','.join(names)), [a[1], b[1], d[1]], [a[2], b[2], d[2]])
        # one array for all nodes
        for specs in ([NodeSpec(1), NodeSpec(2)], [NodeSpec(0), NodeSpec(1)], [NodeSpec(2)], [NodeSpec(1), NodeSpec(0), NodeSpec(1)]):
            lab = '%s[array:%s]' % (name, ','.join(str(s.phases) for s in specs))
            check_training(c, cls, lab, specs, None, array=True)
        # reporting options do not change anything
        two = [NodeSpec(1), NodeSpec(2)]
        for verbose, crash in ((True, False), (False, True)):
            check_training(c, cls, '%s[verbose=%s,crash_recovery=%s]' % (name, verbose, crash), two,
                           [Iterable([Tok('xa')]), Iterable([Tok('xb')])], verbose=verbose, crash=crash)
        arguments(c, cls, name)
    c.need('training scenarios', 100)
    c.need('training paths', 500)


def arguments(c, cls, name):
    """malformed data_iterables are refused before any node is touched"""
    prog = c.prog
    cases = [('too-few', lambda st: st.alloc(HList([Tok('d0')]))),
             ('too-many', lambda st: st.alloc(HList([Tok('d0')] * 3))),
             ('not-a-list', lambda st: Tok('scalar')),
             ('tuple', lambda st: Tup([Tok('d0'), Tok('d0')])),
             ('none', lambda st: NONE),
             ('element-not-iterable', lambda st: st.alloc(HList([Tok('d0'), Tok('scalar')])))]
    for lab, mk in cases:
        w, pol, st, me, refs = setup(c, cls, [NodeSpec(1), NodeSpec(1)], {'d0': Iterable([Tok('xa')])})
        for kind, val, s in w.run_method(st, me, 'train', [mk(st)]):
            ok = kind == RAISE and exc_is(prog, val, FLOWEXC) and not nodeops(s)
            c.obl('malformed-refused', '%s[%s]' % (name, lab), ok, last_loc(s, 0),
                  'malformed training data (%s) ends in %s after %d node calls'
                  % (lab, 'a normal return' if kind == RETURN else val.name, len(nodeops(s))), op_lines(s))
