"""Fork, train and join compared with training in one go."""
from sa import forkjoin as F
from sa.model import AnalysisError
from sa.proto import Tok
from sa.walker import Const, NONE, PathLimit

TITLE = 'Forking a node, training the forks and joining them equals training in one go'
RULES = ('Every node class that inherits or defines a fork is built and trained by abstract interpretation of its own code, with numerical operations as '
         'uninterpreted pure terms: once serially on two chunks and, from an equal node, as forks joined in several schedules. The resulting '
         'attributes must be the same terms, with sums and concatenations compared as multisets of their parts; a fork may instead refuse with the '
         'documented exception. Options given to the constructor are varied so that a fork that loses one that matters is seen.')
ASSUMPTIONS = ['numpy/scipy operations are deterministic functions of their arguments', 'two chunks and the listed schedules stand for any number of chunks: joining is a fold of the same join']

UNLABELLED = [None, None]
LABELLED = [['A', 'B'], ['B']]
SETS = (UNLABELLED, [['A'], ['A']], LABELLED, ['A', 'B'])
TWO, FOUR = Const(2), Const(4)
FLOW = 'mdp.linear_flows.Flow'
NESTED = [
    ('mdp.hinet.layer.Layer', ('nodes', ['HistogramNode', 'SFANode'], TWO), UNLABELLED),
    ('mdp.hinet.layer.Layer', ('nodes', ['PCANode', 'IdentityNode'], TWO), UNLABELLED),
    ('mdp.hinet.layer.Layer', ('nodes', ['FDANode', 'FDANode'], TWO), LABELLED),
    ('mdp.hinet.layer.SameInputLayer', ('nodes', ['HistogramNode', 'SFANode'], FOUR), UNLABELLED),
    ('mdp.hinet.layer.CloneLayer', ('node', ['PCANode'], TWO), UNLABELLED),
    ('mdp.hinet.layer.CloneLayer', ('node', ['HistogramNode'], TWO), UNLABELLED),
    ('mdp.hinet.flownode.FlowNode', (FLOW, ['HistogramNode', 'HistogramNode'], None), UNLABELLED),
    ('mdp.hinet.flownode.FlowNode', (FLOW, ['IdentityNode', 'PCANode'], FOUR), UNLABELLED),
    ('mdp.hinet.flownode.FlowNode', (FLOW, ['FDANode'], FOUR), LABELLED),
]


def one(c, ci, case, data):
    try:
        return F.Run(c, ci, case, data).run()
    except (PathLimit, RecursionError):
        c.count('cases left undecided (too many paths)')
        return 'undecided'


def run(c):
    for ci in F.node_classes(c.prog):
        if '.hinet.' in ci.module.name:
            continue
        c.count('node classes with a fork')
        good = []
        for data in SETS:
            r = one(c, ci, F.simple_case('', {}), data)
            if r in ('done', 'refused'):
                good.append(data)
            if r == 'refused':
                break
        else:
            opts = F.option_values(c, ci)
            for kw in opts:
                for data in good[:1] + good[-1:] if c.tier != 'quick' and len(good) > 1 else good[:1]:
                    one(c, ci, F.simple_case('[%s]' % ','.join(sorted(kw)), kw), data)
        if not good:
            c.count('node classes not trained by the model')
    for name, plan, data in NESTED:
        ci = c.prog.find_class(name)
        if one(c, ci, F.nested_case('[%s]' % ','.join(plan[1]), plan), data) == 'done':
            c.count('nested nodes')
    c.need('node classes with a fork', 8)
    c.need('schedules', 60)
    c.need('nested nodes', 5)
