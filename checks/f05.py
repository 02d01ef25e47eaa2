"""Online flows train all nodes together, chunk by chunk."""
import itertools

from sa.flowmodel import Iterable, NodeSpec, nodeops, op_lines, text
from sa.flowtrain import FLOWEXC, last_loc, names_node, setup
from sa.proto import Tok, exc_is
from sa.walker import Const, HList, NONE, RAISE, RETURN, TRUE, Tup, show

TITLE = 'Online flows train every node on every chunk, each on the output of the one before'
RULES = ('Abstract interpretation of OnlineFlow.train and CircularOnlineFlow.train over the node contract: flows of 1-3 online, '
         'fixed, trained and (last) batch nodes with and without training arguments, chunks from lists, iterators and arrays, '
         'stored inputs and repeated iterations; every node step may fail. The sequence of training steps and the provenance '
         'of their data are compared with the prescribed sequence on every path.')
ASSUMPTIONS = ['nodes obey the phase contract (L01, L02)']
ONLINE = 'mdp.linear_flows_online.OnlineFlow'
CIRC = 'mdp.linear_flows_online.CircularOnlineFlow'

KINDS = {'O': lambda: NodeSpec(1, cls='OnlineNode'), 'R': lambda: NodeSpec(1, req=1, cls='OnlineNode'),
         'F': lambda: NodeSpec(0), 'T': lambda: NodeSpec(1, done=1), 'U': lambda: NodeSpec(1), 'S': lambda: NodeSpec(1, req=1),
         'W': lambda: NodeSpec(2)}


def steps(specs, chunks):
    """expected train events"""
    ev = []
    for x, args in chunks:
        v = x
        for i, sp in enumerate(specs):
            if sp.phases > sp.done:
                a = args[i] if args is not None and sp.req else ()
                ev.append((i, (v,) + tuple(a)))
            v = 'n%d(%s)' % (i, v)
    return ev


def run(c):
    thorough = c.tier == 'thorough'
    for n in (1, 2, 3):
        for ks in itertools.product('ORFTUSW', repeat=n):
            if any(k in 'USW' for k in ks[:-1]):
                continue
            if n == 3 and not thorough and (ks[0] == 'T' or ks[1] == 'T' or len(set(ks)) < 3 or ks[-1] == 'S'):
                continue
            online(c, ''.join(ks), thorough)
    for n in (1, 2, 3):
        for ks in itertools.product('OFT', repeat=n):
            if n == 3 and not thorough and len(set(ks)) == 1 and ks[0] != 'O':
                continue
            circular(c, ''.join(ks), thorough)
    stored_input(c)
    c.need('training scenarios', 100)


def chunk(i, specs, args=True):
    x = Tok('x%d' % i)
    if not args:
        return x
    return Tup([x] + [Tup([Tok('l%d_%d' % (i, k))]) if sp.req else NONE for k, sp in enumerate(specs)])


def online(c, ks, thorough):
    specs = [KINDS[k]() for k in ks]
    sup = any(sp.req for sp in specs)
    for data in ('list', 'iter', 'empty', 'args', 'badargs', 'shortargs', 'array2', 'array3', 'array1'):
        if data in ('list', 'iter') and sup:
            continue
        if data in ('badargs', 'shortargs') and not sup:
            continue
        if data.startswith('array') and (sup or len(ks) == 3):
            continue
        if 'W' in ks and (data != 'list' or len(ks) > 2):
            continue
        one(c, ONLINE, 'OnlineFlow', ks, specs, data)
    if len(ks) == 2:
        one(c, ONLINE, 'OnlineFlow', ks, specs, 'args', verbose=True)


def one(c, cls, name, ks, specs, data, verbose=False):
    prog = c.prog
    its, arrays = {}, ()
    chunks = [('x%d' % i, [(('l%d_%d' % (i, k)),) if sp.req else () for k, sp in enumerate(specs)]) for i in range(2)]
    bad = None
    arg = Tok('src')
    if data in ('list', 'iter'):
        its['src'] = Iterable([chunk(0, specs, False), chunk(1, specs, False)], data == 'iter')
    elif data == 'args':
        its['src'] = Iterable([chunk(0, specs), chunk(1, specs)])
    elif data == 'empty':
        its['src'], chunks, bad = Iterable([]), [], 'empty'
    elif data == 'badargs':      # one argument too many for the supervised nodes of the second chunk
        c2 = Tup([Tok('x1')] + [Tup([Tok('a'), Tok('b')]) if sp.req else NONE for sp in specs])
        its['src'], bad = Iterable([chunk(0, specs), c2]), 'args'
    elif data == 'shortargs':    # argument tuples for too few nodes
        its['src'], bad = Iterable([Tup([Tok('x0')] + [Tup([Tok('a')])] * (len(specs) - 1)), chunk(1, specs)]), 'args'
    else:
        arrays = ('src',)
        chunks = [('src_s%d' % i, None) for i in range(2)]
    w, pol, st, me, refs = setup(c, cls, specs, its, arrays, verbose)
    if data.startswith('array'):
        nd = int(data[-1])
        st.notes[('ovr', arg, 'ndim')] = Const(nd if nd > 1 else 2)
        if nd == 1:
            return
    label = '%s[%s:%s%s]' % (name, ks, data, ':verbose' if verbose else '')
    if 'W' in ks:
        label = '%s[last node with several training phases]' % name
    want = steps(specs, chunks)
    if bad == 'args':
        # what may have been trained before the refusal
        j = 0 if data == 'shortargs' else 1
        first = next(i for i, sp in enumerate(specs) if sp.req)
        want = steps(specs, chunks[:j]) + [e for e in steps(specs, chunks[j:j + 1]) if e[0] < first]
        if data == 'shortargs':
            want = []
    res = w.run_method(st, me, 'train', [arg])
    c.visits(w)
    c.count('training scenarios')
    c.count('training paths', len(res))
    judge(c, prog, cls, label, specs, w, me, refs, res, want, bad)


def judge(c, prog, cls, label, specs, w, me, refs, res, want, bad, end=None):
    loc0 = prog.method(prog.find_class(cls), 'train').loc()
    good = 0
    for kind, val, s in res:
        evs = nodeops(s)
        path, loc = op_lines(s), last_loc(s, 0, loc0)
        got = [(int(e.who[1:]), tuple(text(a) for a in e.args)) for e in evs if e.op == 'train' and not e.failed]
        pre = got == want[:len(got)]
        k = next((k for k in range(len(got)) if k >= len(want) or got[k] != want[k]), None)
        c.obl('training-sequence', label, pre, loc, '' if pre else 'training step %s instead of %s'
              % (got[k], want[k] if k < len(want) else 'none'), path)
        early = [e for e in evs if e.op in ('early', 'badstop')]
        fail = next((e for e in evs if e.failed), None)
        if fail is not None:
            i = int(fail.who[1:])
            if fail.op in ('early', 'badstop'):
                c.obl('node-ready', label, False, fail.loc(), 'node %d is %s while its training is not finished'
                      % (i, 'executed' if fail.op == 'early' else 'closed without data'), path)
                continue
            ok = kind == RAISE and exc_is(prog, val, FLOWEXC)
            c.obl('failure-reported', label, ok, loc, 'a failing %s of node %d ends in %s' % (fail.op, i, 'a normal return' if kind == RETURN else val.name), path)
            if ok:
                c.obl('failure-names-node', label, names_node(s, val, me, refs[i], i), loc, 'the flow exception does not name node %d' % i, path)
            c.obl('failure-stops', label, evs[-1].failed, loc, 'training goes on after node %d failed' % i, path)
            continue
        if bad:
            ok = kind == RAISE and exc_is(prog, val, FLOWEXC)
            c.obl('bad-data-refused', label, ok, loc, 'bad data (%s) ends in %s' % (bad, 'a normal return' if kind == RETURN else val.name), path)
            continue
        c.obl('completes', label, kind == RETURN, loc, 'training fails with %s although no step failed' % (val.name if kind == RAISE else ''), path)
        if kind != RETURN:
            continue
        good += 1
        c.obl('training-complete', label, got == want, loc, 'training returns after %d of %d steps' % (len(got), len(want)), path)
        for i, sp in enumerate(specs):
            p = s.obj(refs[i]).fields['#phase']
            if sp.cls == 'OnlineNode':
                c.obl('online-stays-open', label, p == Const(0), loc, 'the online node %d is closed by the training' % i, path)
            elif i == len(specs) - 1:
                c.obl('last-node-closed', label, p == Const(sp.phases), loc, 'the last node is still in training', path)
        if end is not None:
            end(s, loc, path)
    if not bad:
        c.obl('completes', label, good > 0, loc0, 'no path completes')


def circular(c, ks, thorough):
    prog = c.prog
    for iters in (None, 2) + ((3,) if thorough else ()):
        for ignore in (False, True):
            specs = [KINDS[k]() for k in ks]
            its = {'src': Iterable([Tok('x0'), Tok('x1')])}
            w, pol, st, me, refs = setup(c, CIRC, specs, its)
            pol.fail_ops = ('train', 'execute')
            label = 'CircularOnlineFlow[%s:iterations=%s%s]' % (ks, iters, ':ignore input' if ignore else '')
            pre = []
            if iters:
                pre.append(('set_flow_iterations', [Const(iters)]))
            if ignore:
                pre.append(('ignore_input', [TRUE]))
                pre.append(('set_stored_input', [Tok('st')]))
            states = [st]
            for m, a in pre:
                nxt = []
                for s in states:
                    for k, v, s2 in w.run_method(s, me, m, a):
                        c.obl('setup', label, k == RETURN, prog.method(prog.find_class(CIRC), m).loc(), '%s fails with %s' % (m, v))
                        if k == RETURN:
                            nxt.append(s2)
                states = nxt
            want, stored = [], 'st'
            for x in ('x0', 'x1'):
                v = stored if ignore else x
                for _ in range(iters or 1):
                    for i, sp in enumerate(specs):
                        if sp.phases > sp.done:
                            want.append((i, (v,)))
                        v = 'n%d(%s)' % (i, v)
                    stored = v

            def end(s, loc, path):
                for k, v, s2 in w.run_method(s, me, 'get_stored_input'):
                    c.obl('stored-input', label, k == RETURN and text(v) == stored, loc,
                          'the stored input is %s instead of %s' % (text(v) if k == RETURN else v.name, stored), path)
            for s in states:
                s.trace = ()
                res = w.run_method(s, me, 'train', [Tok('src')])
                c.visits(w)
                c.count('training scenarios')
                c.count('training paths', len(res))
                judge(c, prog, CIRC, label, specs, w, me, refs, res, want, None, end)


def stored_input(c):
    """the stored input is kept for any input dimension it fits"""
    prog = c.prog
    for dim in (None, 'A'):
        for width in ('A', 'Z'):
            w, pol, st, me, refs = setup(c, CIRC, [NodeSpec(0, inp=dim)])
            x = Tok('st')
            st.notes[('ovr', x, 'shape')] = Tup([Tok('rows'), Tok(width)])
            label = 'CircularOnlineFlow.set_stored_input[input_dim=%s,width=%s]' % (dim, width)
            loc = prog.method(prog.find_class(CIRC), 'set_stored_input').loc()
            for k, v, s in w.run_method(st, me, 'set_stored_input', [x]):
                bad = dim is not None and width != dim
                c.obl('refused' if bad else 'accepted', label, (k == RAISE) == bad, loc, 'ends in %s' % ('a normal return' if k == RETURN else v.name))
                for k2, v2, s2 in w.run_method(s, me, 'get_stored_input'):
                    want = NONE if bad else x
                    c.obl('stored-input', label, k2 == RETURN and v2 == want, loc, 'the stored input is %s instead of %s' % (show(v2), show(want)))
