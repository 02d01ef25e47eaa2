"""Dimensions and dtype are set once and every input is checked against them."""
from sa.lifecycle import LifePolicy, Life, run_lifecycle, is_extension_class, kind_of
from sa.model import ClassInfo
from sa.proto import Tok, exc_is, trace_lines, hook_name
from sa.walker import (Const, NONE, RAISE, RETURN, Walker, cval, is_const, show, HList, Ctx)

TITLE = 'Dimensions and dtype are fixed once and every input is checked against them'
RULES = ('(1) typestate product: input of rank 1, rank 3, the wrong width or without rows is refused before algorithm '
         'code in every state, a refused first chunk does not count as training, input of another supported dtype '
         'reaches the algorithm hooks cast to the node dtype, and training arguments are checked before the training '
         'hook; (2) for every node class of the two packages, the setters of input dimension, output dimension and '
         'dtype are interpreted abstractly from unset, equal and different previous values and compared with the '
         'set-once table.')
ASSUMPTIONS = ['attributes not assigned by the node constructor have arbitrary values in (2)']

PROPS = (('input_dim', 'InconsistentDimException'), ('output_dim', 'InconsistentDimException'), ('dtype', 'NodeException'))


class DimPolicy(LifePolicy):
    max_depth = 10

    def opaque(self, w, fi, selfv, st):
        # code of other objects (member nodes, flows) is arbitrary here
        return False

    def may_raise(self, w, f, args, kw, n, fi, st):
        return ()


def setter_table(c):
    prog = c.prog
    node = prog.find_class('mdp.signal_node.Node')
    done = {}
    for ci in [node] + prog.subclasses(node):
        if is_extension_class(prog, ci) or ci.parent_func:
            continue
        for prop, exc in PROPS:
            sig = tuple(prog.method(ci, m) for m in ('set_' + prop, '_set_' + prop, 'get_' + prop))
            sig = tuple(f.node for f in sig if f is not None)
            key = (prop, sig)
            if key in done:
                done[key].append(ci.name)
                continue
            done[key] = [ci.name]
            one_class(c, ci, prop, exc)
    c.need('setter implementations', 15)


def one_class(c, ci, prop, exc):
    prog = c.prog
    pol = DimPolicy(1)
    w = Walker(prog, pol)
    st = w.new_state()
    me = w.new_obj(st, ci, 'node')
    # values after Node.__init__ with nothing given; everything else unknown
    init = None
    for k in prog.mro(ci):
        if isinstance(k, ClassInfo) and k.name == 'Node':
            init = k.methods['__init__']
    res = w.run_func(st, init, [], {}, me)
    A, B = (Tok('A'), Tok('B')) if prop != 'dtype' else (Tok('D'), Tok('E'))
    setm, getm = 'set_' + prop, 'get_' + prop
    where = '%s.%s' % (ci.name, prop)
    c.count('setter implementations')

    def get(s):
        return {show(v) for k, v, _ in w.run_method(s.copy(), me, getm) if k == RETURN}

    def fields(s):
        return {k: v for k, v in s.obj(me).fields.items()}

    for k0, v0, s0 in res:
        if k0 == RAISE:
            continue
        # None is ignored
        for k, v, s in w.run_method(s0.copy(), me, setm, [NONE]):
            c.obl('none-ignored', where, k == RETURN and get(s) == get(s0), prog.method(ci, setm).loc(),
                  'setting %s to None changes it or fails (%s)' % (prop, v if k == RAISE else get(s)), trace_lines(s))
        first = []
        for k, v, s in w.run_method(s0.copy(), me, setm, [A]):
            if k == RAISE:
                # refusing is allowed; the node must not be half changed
                changed = get(s) != get(s0)
                c.obl('refusal-clean', where, not changed, prog.method(ci, '_' + setm).loc(),
                      'a refused assignment leaves %s = %s' % (prop, sorted(get(s))), trace_lines(s))
                continue
            first.append(s)
        explicit = not first
        for s in first:
            g = get(s)
            if ci.name == 'PCANode' or 'desired_variance' in s.obj(me).fields:
                if g == {show(NONE)}:
                    continue       # a fraction of variance, not a dimension
            c.obl('assigned', where, g == {show(A)}, prog.method(ci, '_' + setm).loc(),
                  'after a successful assignment %s reads %s instead of the assigned value' % (prop, sorted(g)), trace_lines(s))
            if g != {show(A)}:
                continue
            s.trace = ()
            for k, v, s2 in w.run_method(s.copy(), me, setm, [A]):
                if k == RAISE and not exc_is(prog, v, ('NodeException',)):
                    continue
                if k == RETURN:
                    c.obl('same-value', where, get(s2) == {show(A)}, prog.method(ci, setm).loc(),
                          'repeating the same assignment changes %s' % prop, trace_lines(s2))
            for k, v, s2 in w.run_method(s.copy(), me, setm, [B]):
                ok = k == RAISE and exc_is(prog, v, (exc,)) and get(s2) == {show(A)}
                c.obl('set-once', where, ok, prog.method(ci, setm).loc(),
                      'a different %s is accepted after it was set (%s)' % (prop, 'returns' if k == RETURN else v.name),
                      trace_lines(s2))
    c.visits(w)


def supported(c):
    """an unsupported dtype is never stored"""
    prog = c.prog
    node = prog.find_class('mdp.signal_node.Node')
    pol = DimPolicy(1)
    w = Walker(prog, pol)
    st = w.new_state()
    me = w.new_obj(st, node, 'node')
    for k0, v0, s0 in w.run_func(st, node.methods['__init__'], [], {}, me):
        for t, good in ((Tok('D'), True), (Tok('E'), True), (Tok('unsupported'), False)):
            for k, v, s in w.run_method(s0.copy(), me, 'set_dtype', [t]):
                got = {show(x) for kk, x, _ in w.run_method(s.copy(), me, 'get_dtype')}
                if good:
                    c.obl('dtype-supported', 'Node.set_dtype', k == RETURN and got == {show(t)}, node.methods['set_dtype'].loc(),
                          'a supported dtype is refused or stored as %s' % got, trace_lines(s))
                else:
                    c.obl('dtype-supported', 'Node.set_dtype', k == RAISE and exc_is(prog, v, ('NodeException',)) and got == {show(NONE)},
                          node.methods['set_dtype'].loc(), 'an unsupported dtype is accepted', trace_lines(s))
    c.visits(w)


def preserve(c):
    """PreserveDim classes keep both dimensions equal"""
    prog = c.prog
    for nm in ('mdp.signal_node.PreserveDimNode', 'mdp.signal_node_online.PreserveDimOnlineNode', 'bimdp.binode.PreserveDimBiNode'):
        ci = prog.find_class(nm)
        w = Walker(prog, DimPolicy(1))
        st = w.new_state()
        me = w.new_obj(st, ci, 'node')
        init = prog.find_class('mdp.signal_node.Node').methods['__init__']
        A, B = Tok('A'), Tok('B')
        for k0, v0, s0 in w.run_func(st, init, [], {}, me):
            for first, other in (('input_dim', 'output_dim'), ('output_dim', 'input_dim')):
                for k, v, s in w.run_method(s0.copy(), me, 'set_' + first, [A]):
                    both = {show(x) for m in ('get_input_dim', 'get_output_dim') for kk, x, _ in w.run_method(s.copy(), me, m)}
                    c.obl('preserve-dim', '%s.%s' % (ci.name, first), k == RETURN and both == {show(A)},
                          prog.method(ci, '_set_' + first).loc(), 'setting %s leaves dimensions %s' % (first, sorted(both)), trace_lines(s))
                    for k2, v2, s2 in w.run_method(s.copy(), me, 'set_' + other, [B]):
                        both = {show(x) for m in ('get_input_dim', 'get_output_dim') for kk, x, _ in w.run_method(s2.copy(), me, m)}
                        c.obl('preserve-dim', '%s.%s-then-%s' % (ci.name, first, other),
                              k2 == RAISE and exc_is(prog, v2, ('InconsistentDimException',)) and both == {show(A)},
                              prog.method(ci, '_set_' + other).loc(), 'an unequal %s is accepted' % other, trace_lines(s2))
            # private hooks called directly must refuse as well
            for first, other in (('input_dim', 'output_dim'), ('output_dim', 'input_dim')):
                s = s0.copy()
                s.mut(me).fields['_' + first] = A
                s.mut(me).fields['_' + other] = NONE
                for k2, v2, s2 in w.run_method(s.copy(), me, '_set_' + other, [B]):
                    c.obl('preserve-dim', '%s._set_%s' % (ci.name, other),
                          k2 == RAISE and exc_is(prog, v2, ('InconsistentDimException',)),
                          prog.method(ci, '_set_' + other).loc(), 'an unequal %s is accepted' % other, trace_lines(s2))
        c.visits(w)


def run(c):
    run_lifecycle(c, {'badinput', 'badinput-notstarted', 'cast', 'input', 'checkfirst', 'chain', 'result'}, c.tier == 'thorough')
    setter_table(c)
    supported(c)
    preserve(c)
