"""Flow execution and inversion chain all nodes, in order, over all chunks."""
from sa.flowmodel import Iterable, NodeSpec, nodeops, op_lines, text
from sa.flowtrain import FLOWEXC, chain, last_loc, names_node, setup
from sa.proto import Tok, exc_is
from sa.walker import Const, HList, NONE, RAISE, RETURN, show

TITLE = 'Flow execution and inversion chain all nodes in order over all chunks'
RULES = ('Abstract interpretation of execute, __call__ and inverse of each flow class over the node contract, for flows of '
         '1-3 nodes, one array or an iterable of 0-3 chunks, every position up to which to execute, any node step failing, '
         'untrained and not invertible nodes. The provenance of the returned value is compared with the composition '
         'prescribed, chunk results must be joined in order, and failures must end in a flow exception naming the node.')
ASSUMPTIONS = ['nodes obey the node contract (L01, L02)', 'a CircularOnlineFlow executes up to its output node']

CLASSES = ['mdp.linear_flows.Flow', 'mdp.linear_flows_online.CircularOnlineFlow']


def forward(x, k):
    return chain(x, k + 1)


def backward(x, n):
    for i in range(n - 1, -1, -1):
        x = 'n%d^-1(%s)' % (i, x)
    return x


def run(c):
    done = set()
    for cls in CLASSES:
        ci = c.prog.find_class(cls)
        name = ci.name
        for n in (1, 2, 3) + ((4,) if c.tier == 'thorough' else ()):
            for meth in ('execute', '__call__', 'inverse'):
                for nr in [None] + (list(range(n)) if meth != 'inverse' else []):
                    for data in ('array', 0, 1, 2) + ((3,) if c.tier == 'thorough' else ()):
                        one(c, cls, name, n, meth, nr, data)
        bad_nodes(c, cls, name)
    c.need('execution scenarios', 50)


def one(c, cls, name, n, meth, nr, data, specs=None, lab=''):
    prog = c.prog
    specs = specs or [NodeSpec(1, done=1)] * n
    arrays = ('arr',)
    its = {}
    if data == 'array':
        arg, chunks = Tok('arr'), None
    else:
        chunks = ['c%d' % i for i in range(data)]
        its['src'] = Iterable([Tok(x) for x in chunks])
        arg = Tok('src')
    w, pol, st, me, refs = setup(c, cls, specs, its, arrays + tuple(chunks or ()))
    label = '%s.%s[%d nodes%s,%s%s]' % (name, meth, n, '' if nr is None else ',upto %d' % nr, data, lab)
    args = [arg] + ([] if nr is None else [Const(nr)])
    res = w.run_method(st, me, meth, args)
    c.visits(w)
    c.count('execution scenarios')
    c.count('execution paths', len(res))
    loc0 = prog.method(prog.find_class(cls), meth).loc()
    k = n - 1 if nr is None else nr
    comp = (lambda x: backward(x, n)) if meth == 'inverse' else (lambda x: forward(x, k))
    want = comp('arr') if chunks is None else 'cat[%s]' % ', '.join(comp(x) for x in chunks)
    good = 0
    for kind, val, s in res:
        evs = nodeops(s)
        loc, path = last_loc(s, 0, loc0), op_lines(s)
        fail = next((e for e in evs if e.failed), None)
        if fail is not None:
            i = int(fail.who[1:])
            ok = kind == RAISE and exc_is(prog, val, FLOWEXC)
            c.obl('failure-reported', label, ok, loc, 'the failure of node %d ends in %s instead of a flow exception'
                  % (i, 'a normal return' if kind == RETURN else val.name), path)
            if ok:
                c.obl('failure-names-node', label, names_node(s, val, me, refs[i], i), loc,
                      'the flow exception does not name node %d' % i, path)
            c.obl('failure-stops', label, evs[-1] is fail, loc, 'the flow goes on after node %d failed' % i, path)
            continue
        if chunks == []:
            ok = kind == RAISE and exc_is(prog, val, FLOWEXC)
            c.obl('empty-refused', label, ok, loc, 'an empty iterator ends in %s instead of a flow exception'
                  % ('a normal return' if kind == RETURN else val.name), path)
            continue
        ok = kind == RETURN
        c.obl('completes', label, ok, loc, '%s fails with %s although no node failed' % (meth, val.name if not ok else ''), path)
        if ok:
            good += 1
            c.obl('composition', label, text(val) == want, loc, 'the result is %s instead of %s' % (text(val), want), path)
    if chunks != []:
        c.obl('completes', label, good > 0, loc0, 'no path returns a result')


def bad_nodes(c, cls, name):
    """nodes that cannot be executed / inverted yet are reported, not skipped"""
    prog = c.prog
    cases = [('execute', [NodeSpec(1, done=1), NodeSpec(2)], 1, 'untrained'),
             ('execute', [NodeSpec(2), NodeSpec(1, done=1)], 0, 'untrained'),
             ('inverse', [NodeSpec(1, done=1), NodeSpec(1, done=1, invertible=False)], 1, 'not invertible'),
             ('inverse', [NodeSpec(0, invertible=False), NodeSpec(1, done=1)], 0, 'not invertible')]
    for meth, specs, i, why in cases:
        if 'Online' in cls and any(s.phases > s.done for s in specs):
            continue
        for data in ('array', 'chunks'):
            its = {'src': Iterable([Tok('c0'), Tok('c1')])}
            w, pol, st, me, refs = setup(c, cls, specs, its, ('arr', 'c0', 'c1'))
            label = '%s.%s[%s node %d,%s]' % (name, meth, why, i, data)
            for kind, val, s in w.run_method(st, me, meth, [Tok('arr' if data == 'array' else 'src')]):
                if any(e.failed and e.op != 'early' for e in nodeops(s)):
                    continue
                loc, path = last_loc(s, 0), op_lines(s)
                ok = kind == RAISE and exc_is(prog, val, FLOWEXC)
                c.obl('failure-reported', label, ok, loc, 'a node that is %s ends in %s' % (why, 'a normal return' if kind == RETURN else val.name), path)
                if ok:
                    c.obl('failure-names-node', label, names_node(s, val, me, refs[i], i), loc,
                          'the flow exception does not name node %d' % i, path)
