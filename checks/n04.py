"""Executing or inverting a trained node leaves it unchanged."""
from sa import noderun as R
from sa.effects import locname, root

TITLE = 'Executing, inverting and labelling leave a trained node unchanged'
RULES = ('Every node and flow class is run abstractly: constructor, training and end of training build its heap, then execute, inverse, label, prob, rank and '
         'call are followed. No attribute assignment, item assignment or in-place operation of these may reach the node, an object or container it '
         'holds, or an array kept in one of its attributes. Storing an attribute while it is None or missing (initialisation) is allowed.')
ASSUMPTIONS = ['the node is trained: closing an open training phase, setting unset dimensions, data type or random generator is not a change',
               'nodes inside a flow, layer or meta node keep their own state (this check, applied to their class)']
USE = ('execute', 'inverse', '__call__', 'label', 'prob', 'rank')
BUILD = ('__init__', 'train', 'stop_training')
SETTERS = frozenset(['_if_training_stop_training', 'stop_training', 'train', '_train', '_stop_training', '_set_input_dim', '_set_output_dim', '_set_dtype',
                     'set_input_dim', 'set_output_dim', 'set_dtype', '_check_params', 'set_numx_rng', '_set_numx_rng'])
# documented state of the execution itself
STATEFUL = {'TimeDelaySlidingWindowNode': None,                # keeps the previous samples between calls
            'BiFlowNode': {'_last_id_request'},                # pending message target, consumed by the next call
            'CloneBiLayer': {'nodes', 'node'}}                 # message key use_copies


def documented(prog, k, field):
    for b in prog.mro(k):
        fs = STATEFUL.get(getattr(b, 'name', None), ())
        if fs is None or field in fs:
            return True
    return False


def reachable(eng, start):
    live, todo = set(), list(start)
    while todo:
        l = todo.pop()
        if l in live:
            continue
        live.add(l)
        for (a, f), v in eng.heap.items():
            if a == l:
                todo.extend(v.locs)
    return live


def run(c):
    flow = c.prog.find_class('mdp.linear_flows.Flow')
    ks = R.node_classes(c.prog) + [k for k in [flow] + c.prog.subclasses(flow) if '.test' not in k.module.name and k.parent_func is None and '.parallel' not in k.module.name]
    for k in ks:
        run_ = R.NodeRun(c.prog, k)
        eng = run_.eng
        eng.track_fields = True
        ops = run_.public()
        run_.entries = [n for n in ops if n in BUILD]
        run_.run()
        live = reachable(eng, run_.selfv.locs)
        eng.effects.clear()
        eng.skip = SETTERS
        run_.entries = [n for n in ops if n in USE]
        run_.run()
        bad = {}
        for key, entry in eng.effects.items():
            if key[0] == 'global':
                _, name, fi, node = key
                bad[(fi, name)] = (fi.loc(node), entry, 'assigns the module variable %s' % name)
                continue
            l, fi, node = key[1], key[-3] if key[0] == 'mut' else key[-2], key[-2] if key[0] == 'mut' else key[-1]
            r = root(l)
            if key[0] == 'mut' and not key[5]:
                continue
            if r[0] == 'P':
                if not r[1].startswith(('class variable', 'module variable')):
                    continue
                field = r[1]
            elif l in live or r in live:
                field = key[2] if key[0] == 'store' else locname(l).rpartition('.')[2]
            else:
                continue
            if documented(c.prog, k, field):
                continue
            bad[(fi, field)] = (fi.loc(node), entry, 'sets' if key[0] == 'store' else 'changes (%s)' % key[2])
        for (fi, field), (loc, entry, how) in sorted(bad.items(), key=lambda x: x[1][0]):
            c.obl('state-kept', '%s:%s' % (fi.qualname, field), False, loc, '%s.%s %s %s in %s' % (k.name, entry, how, field, fi.qualname))
        for n in run_.entries:
            c.count('operations')
            c.obl('state-kept', '%s.%s' % (k.name, n), True)
        for f in eng.funcs:
            c.visit(f)
        c.count('classes')
        c.count('locations reachable from the nodes', len(live))
    c.need('classes', 60)
    c.need('operations', 150)
