"""Oracle and driver for flow training / execution, over the node contract."""
import itertools

from .flowmodel import Iterable, NodeModelPolicy, NodeSpec, mentions, nodeops, op_lines, text
from .model import AnalysisError
from .proto import Tok, exc_is, is_tok
from .walker import Const, FALSE, HList, HObj, NONE, RAISE, RETURN, TRUE, Tup, Walker, show

FLOWEXC = ('FlowException', 'OnlineFlowException', 'CircularOnlineFlowException')


def setup(c, cls, specs, iterables=None, arrays=(), verbose=False, crash=False, policy=NodeModelPolicy):
    """-> (walker, policy, state, flow ref, node refs) for a freshly constructed flow"""
    prog = c.prog
    nodes = {'n%d' % i: sp for i, sp in enumerate(specs)}
    pol = policy(prog, nodes, iterables, arrays)
    w = Walker(prog, pol)
    st = w.new_state()
    refs = pol.make(st, w)
    ci = prog.find_class(cls)
    me = w.new_obj(st, ci, 'flow')
    lst = st.alloc(HList(refs))
    outs = []
    for k, v, s in w.run_method(st, me, '__init__', [lst], {'verbose': Const(verbose), 'crash_recovery': Const(crash)}):
        if k == RAISE:
            return w, pol, None, me, refs
        outs.append(s)
    if len(outs) != 1:
        raise AnalysisError('constructor of %s has %d outcomes' % (cls, len(outs)))
    outs[0].trace = ()
    return w, pol, outs[0], me, refs


def chain(x, upto):
    for j in range(upto):
        x = 'n%d(%s)' % (j, x)
    return x


def last_loc(st, start, default=''):
    for e in reversed(st.trace[start:]):
        if e.kind in ('nodeop', 'call', 'raised', 'branch', 'loop', 'new'):
            return e.loc()
    return default


def names_node(st, exc, flow, ref, idx):
    """the exception text names the failing node and its number"""
    v = exc.value
    if v is None:
        return False
    return mentions(st, v, ref, seen={flow}) and mentions(st, v, Const(idx), seen={flow})


# ------------------------------------------------------------------ training
def expected_training(specs, data):
    """[(event, node)] for a complete training and the index of the node whose
    data is at fault (None if the training must succeed)

    events: ('train', i, phase, (arg names)) and ('stop', i, phase)
    """
    ev = []
    used = {}
    for i, (sp, d) in enumerate(zip(specs, data)):
        if sp.phases == 0 or sp.done >= sp.phases:
            if d is not None and sp.phases and not d.items:
                return ev, None, 'unspecified'
            continue
        if d is None:
            return ev, i, 'none'
        for p in range(sp.done, sp.phases):
            items = d.items
            if d.oneshot:
                items = items[used.get(id(d), 0):]
                used[id(d)] = len(d.items)
            if not items:
                return ev, i, 'empty'
            for it in items:
                if it.tag == 'tup':
                    x, args = it.k[1], list(it.k[2:])
                else:
                    x, args = it, []
                if sp.req and len(args) != sp.req:
                    return ev, i, 'args'
                ev.append(('train', i, p, (chain(text(x), i),) + tuple(text(a) for a in args)))
            ev.append(('stop', i, p))
    return ev, None, None


def final_stops(specs):
    return {('stop', i, sp.phases - 1) for i, sp in enumerate(specs)}


def actual_events(st, n0):
    """(events, index of failing node, failing op)"""
    ev, fail = [], None
    for e in nodeops(st, n0):
        i = int(e.who[1:])
        if e.failed:
            fail = (i, e.op)
            continue
        if e.op == 'train':
            ev.append(('train', i, e.phase, tuple(text(a) for a in e.args) + tuple('%s=%s' % (k, text(v)) for k, v in e.kwargs)))
        elif e.op == 'stop':
            ev.append(('stop', i, e.phase))
    return ev, fail


def check_training(c, cls, label, specs, data, method='train', extra=(), verbose=False, array=False, crash=False):
    prog = c.prog
    iterables = {}
    toks = []
    if array:
        toks = Tok('arr')
        data = [Iterable([Tok('arr')]) for _ in specs]
    else:
        for i, d in enumerate(data):
            if d is None:
                toks.append(NONE)
            else:
                nm = 'd%d' % i
                iterables[nm] = d
                toks.append(Tok(nm))
    w, pol, st, me, refs = setup(c, cls, specs, iterables, ('arr',) if array else (), verbose, crash)
    if st is None:
        raise AnalysisError('cannot construct %s' % cls)
    arg = toks if array else st.alloc(HList(toks))
    want, bad, kind_bad = expected_training(specs, data)
    if kind_bad == 'unspecified':
        return
    fins = final_stops(specs)
    loc0 = prog.method(prog.find_class(cls), method).loc()
    n_ok = 0
    res = w.run_method(st, me, method, [arg] + list(extra))
    c.visits(w)
    c.count('training scenarios')
    c.count('training paths', len(res))
    for kind, val, s in res:
        got, fail = actual_events(s, 0)
        loc = last_loc(s, 0, loc0)
        path = op_lines(s)
        # final closings may come at any later point: their presence is checked separately
        g = [e for e in got if e not in fins]
        x = [e for e in want if e not in fins]
        pre = g == x[:len(g)]
        diff = next((k for k in range(len(g)) if k >= len(x) or g[k] != x[k]), None)
        c.obl('training-sequence', label, pre, loc,
              '' if pre else 'training step %s does not follow the protocol (expected %s)'
              % (g[diff], x[diff] if diff < len(x) else 'no further step'), path)
        c.obl('closed-once', label, len([e for e in got if e[0] == 'stop']) == len({e for e in got if e[0] == 'stop'}), loc,
              'a training phase is closed twice', path)
        for e in nodeops(s, 0):
            if e.op in ('early', 'badstop'):
                c.obl('node-ready', label, False, e.loc(), 'node %s is %s while its training is not finished'
                      % (e.who, 'executed' if e.op == 'early' else 'closed without data'), path)
                break
        else:
            c.obl('node-ready', label, True)
        if fail is not None:
            i = fail[0]
            ok = kind == RAISE and exc_is(prog, val, FLOWEXC)
            c.obl('failure-reported', label, ok, loc, 'a failing %s of node %d ends in %s instead of a flow exception'
                  % (fail[1], i, 'a normal return' if kind == RETURN else val.name), path)
            if ok:
                c.obl('failure-names-node', label, names_node(s, val, me, refs[i], i), loc,
                      'the flow exception does not name the failing node %d' % i, path)
            # nothing else is done with the data after the failure
            evs = nodeops(s, 0)
            c.obl('failure-stops', label, evs[-1].failed, loc, 'training goes on after node %d failed' % i, path)
            continue
        if bad is not None:
            ok = kind == RAISE and exc_is(prog, val, FLOWEXC)
            c.obl('bad-data-refused', label + ':' + kind_bad, ok, loc,
                  'node %d gets %s but training ends in %s' % (bad, {'none': 'no data', 'empty': 'an empty or exhausted iterator',
                                                                     'args': 'the wrong number of training arguments'}[kind_bad],
                                                             'a normal return' if kind == RETURN else val.name), path)
            c.obl('bad-data-prefix', label + ':' + kind_bad, len(g) <= len(x), loc,
                  'training goes on with bad data', path)
            continue
        n_ok += 1
        ok = kind == RETURN
        c.obl('completes', label, ok, loc, 'training fails with %s although no step failed' % (val.name if kind == RAISE else ''), path)
        if ok:
            c.obl('training-complete', label, g == x, loc, 'training returns after %d of %d steps' % (len(g), len(x)), path)
            done = s.obj(refs[-1]).fields['#phase']
            c.obl('last-node-closed', label, done == Const(specs[-1].phases), loc,
                  'the last node is still in phase %s of %d after training' % (show(done), specs[-1].phases), path)
    if bad is None:
        c.obl('completes', label, n_ok > 0, loc0, 'no path trains the flow completely')


def node_choices(thorough):
    """(label, spec) of one position"""
    out = [('fixed', NodeSpec(0)), ('one', NodeSpec(1)), ('two', NodeSpec(2)), ('sup', NodeSpec(1, req=1)),
           ('done', NodeSpec(1, done=1)), ('opt', NodeSpec(1, opt=1))]
    if thorough:
        out += [('three', NodeSpec(3)), ('half', NodeSpec(2, done=1)), ('sup2', NodeSpec(2, req=2, opt=1))]
    return out


def data_choices(i, sp, thorough):
    x = ['x%d%s' % (i, k) for k in 'abc']
    a = ['l%d%s' % (i, k) for k in 'abc']
    nreq = sp.req

    def item(k, nargs, as_list=False):
        if nargs == 0:
            return Tok(x[k])
        return Tup([Tok(x[k])] + [Tok(a[k] + ('%d' % j if j else '')) for j in range(nargs)])
    out = [('list2', Iterable([item(0, nreq), item(1, nreq)])),
           ('none', None),
           ('iter2', Iterable([item(0, nreq), item(1, nreq)], True)),
           ('empty', Iterable([]))]
    if nreq or sp.opt:
        out.append(('toomany', Iterable([item(0, nreq), item(1, nreq + 1)])))
    if nreq:
        out.append(('noargs', Iterable([item(0, 0)])))
    if thorough:
        out += [('iter1', Iterable([item(0, nreq)], True)), ('list1', Iterable([item(0, nreq)])),
                ('list3', Iterable([item(0, nreq), item(1, nreq), item(2, nreq)]))]
    return out
