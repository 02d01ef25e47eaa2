"""No operation modifies the data and arguments it was given."""
import ast

from sa import noderun as R
from sa.effects import AV, Effects, NOTHING, locname, root
from sa.model import ClassInfo

TITLE = 'Operations never modify the data, arguments or defaults they were given'
RULES = ('Every public operation of every node, flow, graph and accumulator class and every exported function is followed with its arguments as abstract '
         'locations. No in-place operation, item assignment, out= argument, mutating method or overwrite option may reach a location that came in '
         'as an argument (of this or an earlier call, the constructor included), a class or module variable, or a default value.')
ASSUMPTIONS = ['numpy functions modify an argument only where documented (out=, overwrite_*, put, shuffle, ...)',
               'operations of nodes inside a flow, layer or meta node do not modify their arguments (this check, applied to their class)']

# functions whose documentation says that they work in place (the inspection functions prepare and train the flow)
IN_PLACE = {'rotate': {'mat'}, 'permute': {'x'}, 'show_training': {'flow'}, 'prepare_training_inspection': {'flow'}}
PACKAGES = ('mdp', 'mdp.utils', 'mdp.parallel', 'mdp.hinet', 'mdp.graph', 'mdp.caching', 'bimdp', 'bimdp.inspection', 'bimdp.parallel', 'bimdp.hinet')
OTHERS = ('mdp.linear_flows.Flow', 'mdp.graph.graph.Graph', 'bimdp.biflow.MessageResultContainer', 'mdp.utils.covariance.CovarianceMatrix',
          'mdp.utils.covariance.VartimeCovarianceMatrix', 'mdp.utils.covariance.DelayCovarianceMatrix', 'mdp.utils.covariance.MultipleCovarianceMatrices',
          'mdp.utils.covariance.CrossCovarianceMatrix', 'mdp.utils.quad_forms.QuadraticForm')
# a message is documented to be consumed by the BiNode that receives it (BiFlow copies the messages of the user)
MESSAGES = ('msg', 'args', 'kwargs')
# documented to change the flow nodes they are given (they own the fork)
OWNERS = ('_purge_flownode',)


def report(c, eng, who, allow=()):
    bad = {}
    for r, l, how, fi, node, entry in R.mutated_arguments(eng):
        base = r[1].partition(' of ')[0]
        if base in allow or fi.name in OWNERS:
            continue
        if r[1].startswith('module variable') and who == 'function':
            continue
        bad[(fi, r[1])] = (fi.loc(node), how, entry, locname(l))
    for (fi, arg), (loc, how, entry, l) in sorted(bad.items(), key=lambda k: k[1][0]):
        c.obl('unmodified', '%s:%s' % (fi.qualname, arg), False, loc, '%s modifies %s: %s in %s' % (entry, l, how, fi.qualname))
    return bool(bad)


def run(c):
    ks = R.node_classes(c.prog)
    binode = c.prog.find_class('bimdp.binode.BiNode')
    for name in OTHERS:
        k = c.prog.find_class(name)
        ks += [k] + [s for s in c.prog.subclasses(k) if s not in ks and s is not k and '.test' not in s.module.name and s.parent_func is None]
    for k in ks:
        run_ = R.NodeRun(c.prog, k)
        eng = run_.run()
        report(c, eng, k.name, MESSAGES if binode in c.prog.mro(k) else ())
        for f in eng.funcs:
            c.visit(f)
        c.count('classes')
        for n in run_.entries:
            c.count('operations')
            c.obl('unmodified', '%s.%s' % (k.name, n), True)
        c.count('call contexts', eng.calls)
    seen = set()
    for pk in PACKAGES:
        m = c.prog.modules.get(pk)
        if m is None:
            continue
        for nm in sorted(m.symbols):
            r = c.prog.resolve_in(m, nm)
            if nm.startswith('_') or r[0] != 'def' or r[1] in seen or r[1].cls is not None:
                continue
            seen.add(r[1])
            function(c, r[1])
    c.need('classes', 60)
    c.need('operations', 600)
    c.need('functions', 40)


def function(c, fi):
    ps = fi.params()
    if any(n.startswith('overwrite') for n, *_ in ps):
        return                       # the caller chooses
    eng = Effects(c.prog, {n: R.contract for n in R.NODE_CONTRACT})
    eng.entry = fi.name
    args, kw, star, starkw = [], {}, NOTHING, NOTHING
    for n, hasd, d, kind in ps:
        v = AV(frozenset([('P', '%s of %s' % (n, fi.name))]))
        if kind == 'pos':
            args.append(v)
        elif kind == 'kwonly':
            kw[n] = v
        elif kind == 'var':
            star = v
        else:
            starkw = v
    for _ in range(2):
        eng.memo = {}
        eng.call(fi, None, args, kw, fi.node, None, None, star, starkw)
    c.count('functions')
    report(c, eng, 'function', IN_PLACE.get(fi.name, ()))
    c.obl('unmodified', fi.qualname, True)
    for f in eng.funcs:
        c.visit(f)
