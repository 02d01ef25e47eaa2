"""Flows are containers of compatible nodes; a refused change leaves them unchanged."""
from sa.flowmodel import Iterable, NodeModelPolicy, NodeSpec, nodeops, op_lines, text
from sa.model import AnalysisError
from sa.proto import Tok, exc_is, trace_lines
from sa.walker import (Const, FALSE, HList, HObj, NONE, RAISE, RETURN, TRUE, Tup, V, Walker, cval, is_const, show)

TITLE = 'Changing a flow keeps its nodes compatible, and a refused change leaves it unchanged'
RULES = ('Abstract interpretation of every list operation of each flow class on flows of 0-3 model nodes with compatible, '
         'incompatible and unset dimensions (and, for online flows, every kind of node), with valid and invalid values and '
         'indices. The node list afterwards is compared with the Python list model: either the operation returns and the '
         'list is the model result and compatible, or it raises and the flow is exactly as before. The operands are never '
         'changed, results of + and slicing are new flows of the same class, and training arguments and the output node of '
         'online flows follow the nodes.')
ASSUMPTIONS = ['nodes do not change their dimensions while they are put into a flow']

# name -> (in, out)
DIMS = {'a': ('A', 'B'), 'b': ('B', 'C'), 'c': ('C', 'D'), 'a2': ('A', 'B'), 'b2': ('B', 'C'), 'c2': ('C', 'D'),
        'd': ('D', 'E'), 'x': ('X', 'Y'), 'u': (None, None)}


def specs(kinds):
    out = {}
    for n, (i, o) in DIMS.items():
        k = kinds.get(n, kinds.get('*', 'F'))
        out[n] = {'F': NodeSpec(0, inp=i, out=o), 'T': NodeSpec(1, done=1, inp=i, out=o), 'U': NodeSpec(1, inp=i, out=o),
                  'O': NodeSpec(1, inp=i, out=o, cls='OnlineNode'),
                  'R': NodeSpec(1, req=1, inp=i, out=o, cls='OnlineNode')}[k]
    return out


def consistent(names):
    for p, q in zip(names, names[1:]):
        o, i = DIMS[p][1], DIMS[q][0]
        if o is not None and i is not None and o != i:
            return False
    return True


class Fam(object):
    """one flow class and what it accepts"""

    def __init__(self, cls, online=False, circular=False):
        self.cls, self.online, self.circular = cls, online, circular
        self.name = cls.rpartition('.')[2]

    def accepts(self, names, kinds):
        """True / False / None (may be refused)"""
        if not self.online:
            return True
        if not names:
            return None
        bad = [n for n in names if kinds.get(n, kinds.get('*')) == 'U']
        if not bad:
            return True
        if self.circular or bad != [names[-1]]:
            return False
        return None


FAMS = [Fam('mdp.linear_flows.Flow'), Fam('mdp.linear_flows_online.OnlineFlow', True),
        Fam('mdp.linear_flows_online.CircularOnlineFlow', True, True)]


def run(c):
    prog = c.prog
    done = []
    for fam in FAMS:
        kindsets = [{'*': 'F'}]
        if fam.online:
            kindsets = [{'*': 'O', 'a': 'R', 'c2': 'R', 'd': 'U', 'b2': 'T', 'c': 'F', 'x': 'U'}]
        for kinds in kindsets:
            for start in ([], ['a'], ['a', 'b'], ['a', 'b', 'c'], ['a', 'u', 'c']):
                if fam.online and not start:
                    continue
                for op in operations(len(start), c.tier == 'thorough'):
                    outs = [None]
                    if fam.circular and c.tier == 'thorough':
                        outs = list(range(len(start)))
                    elif fam.circular and len(start) == 3:
                        outs = [0, 1, 2]
                    for out in outs:
                        apply(c, fam, kinds, start, op, out)
        construct(c, fam)
        queries(c, fam)
        circular_nodes(c, fam)
    c.need('container scenarios', 200)


def operations(n, thorough):
    """(label, method, args builder, model)  -- model(list) -> new list or raises"""
    ops = []
    idxs = list(range(-n - 1, n + 1))
    vals = ['a2', 'b2', 'c2', 'x', 'd', 'NOTNODE']

    def setitem(i, v):
        def m(L):
            L[i] = v
        return ('[%d]=%s' % (i, v), '__setitem__', [i, v], m)

    def setslice(lo, hi, vs):
        def m(L):
            L[lo:hi] = vs
        return ('[%s:%s]=%s' % (lo, hi, '+'.join(vs)), '__setitem__', [slice(lo, hi), vs], m)

    def delitem(i):
        def m(L):
            del L[i]
        return ('del[%d]' % i, '__delitem__', [i], m)

    def delslice(lo, hi):
        def m(L):
            del L[lo:hi]
        return ('del[%s:%s]' % (lo, hi), '__delitem__', [slice(lo, hi)], m)

    def insert(i, v):
        def m(L):
            L.insert(i, v)
        return ('insert(%d,%s)' % (i, v), 'insert', [i, v], m)

    def append(v):
        def m(L):
            L.append(v)
        return ('append(%s)' % v, 'append', [v], m)

    def pop(i):
        def m(L):
            L.pop() if i is None else L.pop(i)
        return ('pop(%s)' % ('' if i is None else i), 'pop', [] if i is None else [i], m)

    def ext(kind, vs):
        def m(L):
            if kind == 'list':
                raise TypeError
            L.extend(vs)
        return ('extend(%s:%s)' % (kind, '+'.join(vs)), 'extend', [(kind, vs)], m)

    def add(meth, kind, vs):
        def m(L):
            if kind in ('list', 'other'):
                raise TypeError
            L.extend(vs)
        return ('%s(%s:%s)' % (meth, kind, '+'.join(vs)), meth, [(kind, vs)], m)

    for i in idxs:
        for v in vals:
            ops.append(setitem(i, v))
        ops.append(delitem(i))
        ops.append(pop(i))
    ops.append(pop(None))
    for i in idxs if thorough else (0, 1, n, -1):
        for v in vals:
            ops.append(insert(i, v))
    for v in vals:
        ops.append(append(v))
    for lo, hi in ((0, 1), (0, n), (1, n), (n, n), (None, None), (0, 0)):
        ops.append(delslice(lo, hi))
        for vs in (['a2'], ['a2', 'b2'], ['x'], [], ['a2', 'NOTNODE'], ['b2', 'c2']):
            ops.append(setslice(lo, hi, vs))
    for vs in (['c2', 'd'], ['b2', 'c2'], ['x'], ['d'], ['a2', 'b2']):
        ops.append(ext('flow', vs))
        ops.append(add('__add__', 'flow', vs))
        ops.append(add('__iadd__', 'flow', vs))
    ops.append(ext('list', ['c2']))
    for v in vals:
        if v == 'NOTNODE':
            ops.append(add('__add__', 'other', [v]))
            ops.append(add('__iadd__', 'other', [v]))
        else:
            ops.append(add('__add__', 'node', [v]))
            ops.append(add('__iadd__', 'node', [v]))
    seen, res = set(), []
    for o in ops:
        if o[0] not in seen:
            seen.add(o[0])
            res.append(o)
    return res


class World(object):
    def __init__(self, c, fam, kinds, start, out=None):
        self.c, self.prog, self.fam, self.kinds = c, c.prog, fam, kinds
        self.nodes = specs(kinds)
        self.pol = NodeModelPolicy(self.prog, self.nodes, {'src': Iterable([])}, ('arr',))
        self.w = Walker(self.prog, self.pol)
        self.st = self.w.new_state()
        names = sorted(self.nodes)
        self.refs = dict(zip(names, self.pol.make(self.st, self.w, names)))
        self.ok = True
        self.me = self.flow(start)
        if self.me is not None and out is not None:
            res = self.w.run_method(self.st, self.me, 'set_output_node', [Const(out)])
            if len(res) != 1 or res[0][0] != RETURN:
                raise AnalysisError('set_output_node(%d) fails on a flow of %d nodes' % (out, len(start)))
            self.st = res[0][2]
        self.st.trace = ()

    def flow(self, names, cls=None):
        ci = self.prog.find_class(cls or self.fam.cls)
        me = self.w.new_obj(self.st, ci, 'flow')
        lst = self.st.alloc(HList([self.refs[n] for n in names]))
        res = self.w.run_method(self.st, me, '__init__', [lst])
        if len(res) != 1:
            raise AnalysisError('constructor of %s has %d outcomes' % (ci.name, len(res)))
        k, v, s = res[0]
        if k == RAISE:
            return None
        self.st = s
        return me

    def names(self, st, me):
        o = st.obj(me)
        f = st.obj(o.fields.get('flow', NONE))
        if not isinstance(f, HList) or f.open:
            return None
        return [st.obj(x).name if isinstance(st.obj(x), HObj) else show(x) for x in f.items]

    def value(self, v):
        if isinstance(v, int):
            return Const(v)
        if isinstance(v, slice):
            return V(('slice', Const(v.start) if v.start is not None else NONE,
                      Const(v.stop) if v.stop is not None else NONE, NONE))
        if isinstance(v, str):
            return Tok('notnode') if v == 'NOTNODE' else self.refs[v]
        if isinstance(v, list):
            return self.st.alloc(HList([self.value(x) for x in v]))
        raise AnalysisError(repr(v))


def apply(c, fam, kinds, start, op, out):
    lab, meth, args, model = op
    prog = c.prog
    fi = prog.method(prog.find_class(fam.cls), meth)
    if fi is None:
        raise AnalysisError('%s has no %s' % (fam.cls, meth))
    W = World(c, fam, kinds, start, out)
    if W.me is None:
        raise AnalysisError('cannot build %s(%s)' % (fam.name, start))
    other = None
    vals = []
    added = []
    for a in args:
        if isinstance(a, tuple):
            kind, vs = a
            added += vs
            if kind == 'flow':
                # an operand that cannot even be built is no scenario
                ok_kinds = fam.accepts(vs, kinds)
                if not consistent(vs) or ok_kinds is False:
                    return
                other = W.flow(vs)
                if other is None:
                    return
                vals.append(other)
            elif kind == 'list':
                vals.append(W.value(vs))
            else:
                vals.append(W.value(vs[0]))
        else:
            vals.append(W.value(a))
            if isinstance(a, str):
                added.append(a)
            elif isinstance(a, list):
                added += a
    st = W.st
    st.trace = ()
    before = W.names(st, W.me)
    other_before = W.names(st, other) if other is not None else None
    L = list(start)
    err = None
    try:
        model(L)
    except Exception as e:
        err = type(e).__name__
    if 'NOTNODE' in added and err is None:
        err = 'TypeError'
    label = '%s(%s%s).%s' % (fam.name, ','.join(start), '' if out is None else ';out=%d' % out, lab)
    acc = fam.accepts(L, kinds)
    must_fail = err or (None if consistent(L) else 'ValueError') or ('TypeError' if acc is False else None)
    may_fail = acc is None or (fam.online and any(kinds.get(v, kinds['*']) == 'U' for v in added)) \
        or (fam.circular and meth in ('__add__', '__iadd__') and any(kinds.get(v, kinds['*']) not in 'OR' for v in added))
    res = W.w.run_method(st, W.me, meth, vals)
    c.visits(W.w)
    c.count('container scenarios')
    c.count('container paths', len(res))
    for k, v, s in res:
        after = W.names(s, W.me)
        tl = trace_lines(s, 0)
        loc = fi.loc()
        for e in reversed(s.trace):
            if e.kind in ('store', 'mutate', 'call', 'raised'):
                loc = e.loc()
                break
        c.obl('operand-unchanged', label, other is None or W.names(s, other) == other_before, loc,
              'the other flow is changed', tl)
        c.obl('nodes-untouched', label, not nodeops(s), loc, 'nodes are run while the container changes', tl)
        if k == RAISE:
            c.obl('refused-unchanged', label, after == before, loc,
                  '%s is raised but the flow has changed from %s to %s' % (v.name, before, after), tl)
            if not may_fail:
                c.obl('accepted', label, must_fail is not None, loc,
                      'a valid change is refused with %s' % v.name, tl)
            if must_fail is not None:
                okx = v.name == must_fail or (must_fail in ('ValueError', 'TypeError') and v.name in ('ValueError', 'TypeError'))
                c.obl('refusal-kind', label, okx or err not in (None, 'TypeError'), loc,
                      'the change is refused with %s instead of %s' % (v.name, must_fail), tl)
            usable(c, W, fam, s, W.me, before, label, kinds, out_name(before, out), loc)
            continue
        c.obl('refused', label, must_fail is None, loc, 'the change must be refused (%s) but is accepted: %s' % (must_fail, after), tl)
        if must_fail is not None:
            continue
        if meth == '__add__':
            new = v
            o = s.obj(new)
            good = isinstance(o, HObj) and o.cls is not None and o.cls.name == fam.name and new != W.me
            c.obl('new-flow', label, good, loc, '+ does not return a new %s' % fam.name, tl)
            if good:
                c.obl('list-model', label, W.names(s, new) == L, loc, 'the sum is %s instead of %s' % (W.names(s, new), L), tl)
                usable(c, W, fam, s, new, L, label, kinds, L[-1] if L else None, loc)
            c.obl('operand-unchanged', label, after == before, loc, '+ changes the flow itself', tl)
            continue
        if meth == '__iadd__':
            c.obl('new-flow', label, v == W.me, loc, '+= does not return the flow itself', tl)
        if meth == 'pop':
            i = args[0] if args else -1
            c.obl('list-model', label, v == W.refs.get(start[i]), loc, 'pop returns another node', tl)
        c.obl('list-model', label, after == L, loc, 'the flow is %s instead of %s' % (after, L), tl)
        keep = out_name(start, out)
        usable(c, W, fam, s, W.me, L, label, kinds, keep if keep in L else (L[-1] if L else None), loc)


def out_name(names, out):
    if not names:
        return None
    return names[-1 if out is None else out]


def usable(c, W, fam, s, me, L, label, kinds, outnode, loc):
    """what depends on the node list follows it: training arguments, output node"""
    if not L or not fam.online:
        return
    s = s.copy()
    s.trace = ()
    if fam.circular:
        W.pol.fail_ops = ()
        if any(kinds.get(n, kinds['*']) == 'U' for n in L):
            return
        # train once so that every node can be executed
        want = 'arr'
        for n in L[:L.index(outnode) + 1]:
            want = '%s(%s)' % (n, want)
        for r in s.heap.values():
            if isinstance(r, HObj) and '#phase' in r.fields and W.nodes[r.name].phases:
                pass
        s2 = s.copy()
        for n in L:
            if W.nodes[n].phases:
                s2.mut(W.refs[n]).fields['#phase'] = Const(W.nodes[n].phases)
        for k, v, s3 in W.w.run_method(s2, me, 'execute', [Tok('arr')]):
            got = text(v) if k == RETURN else v.name
            c.obl('output-node', label, got == want, loc, 'after the change execution gives %s instead of %s (output node %s)'
                  % (got, want, outnode), op_lines(s3))
        return
    # online training gives each node its own arguments
    W.pol.fail_ops = ()
    item = Tup([Tok('arr')] + [Tup([Tok('l_' + n)]) if W.nodes[n].req else NONE for n in L])
    W.pol.iterables['src'] = Iterable([item])
    x = 'arr'
    want = []
    for n in L:
        sp = W.nodes[n]
        if sp.phases > sp.done:
            want.append((n, (x,) + (('l_' + n,) if sp.req else ())))
        x = '%s(%s)' % (n, x)
    for k, v, s2 in W.w.run_method(s, me, 'train', [Tok('src')]):
        got = [(e.who, tuple(text(a) for a in e.args)) for e in nodeops(s2) if e.op == 'train']
        c.obl('training-arguments', label, k == RETURN and got == want, loc,
              'after the change training runs %s instead of %s (%s)' % (got, want, 'returns' if k == RETURN else v.name), op_lines(s2))


def construct(c, fam):
    """the constructor checks the same conditions"""
    prog = c.prog
    kinds = {'*': 'F'} if not fam.online else {'*': 'O', 'd': 'U', 'b2': 'T', 'c': 'F', 'x': 'U'}
    for names in (['a'], ['a', 'b', 'c'], ['a', 'u', 'c'], ['a', 'c'], ['b', 'a'], ['a', 'b', 'x'], ['u', 'a', 'b', 'd'],
                  ['d', 'u'], ['a', 'b', 'c', 'd']):
        W = World(c, fam, kinds, names)
        acc = fam.accepts(names, kinds)
        if fam.online and not fam.circular and acc is None:
            acc = True
        good = consistent(names) and acc is not False
        c.count('container scenarios')
        c.obl('constructor', '%s(%s)' % (fam.name, ','.join(names)), (W.me is not None) == good,
              prog.method(prog.find_class(fam.cls), '__init__').loc(),
              'a flow of %s nodes is %s' % ('incompatible' if not good else 'compatible', 'built' if W.me is not None else 'refused'))


def queries(c, fam):
    """len, in, iteration, indexing and slicing read the node list"""
    kinds = {'*': 'F'} if not fam.online else {'*': 'O'}
    start = ['a', 'b', 'c']
    prog = c.prog
    for lab, meth, args, want in [('len', '__len__', [], 3), ('in', '__contains__', ['b'], True), ('not-in', '__contains__', ['x'], False),
                                  ('[0]', '__getitem__', [0], 'a'), ('[-1]', '__getitem__', [-1], 'c'), ('[2]', '__getitem__', [2], 'c'),
                                  ('[3]', '__getitem__', [3], 'IndexError'),
                                  ('[1:]', '__getitem__', [slice(1, None)], ['b', 'c']), ('[:2]', '__getitem__', [slice(None, 2)], ['a', 'b']),
                                  ('[1:2]', '__getitem__', [slice(1, 2)], ['b']), ('iter', '__iter__', [], start)]:
        W = World(c, fam, kinds, start)
        fi = prog.method(prog.find_class(fam.cls), meth)
        label = '%s(a,b,c).%s' % (fam.name, lab)
        c.count('container scenarios')
        for k, v, s in W.w.run_method(W.st, W.me, meth, [W.value(a) for a in args]):
            o = s.obj(v) if k == RETURN else None
            if k == RAISE:
                got = v.name
            elif isinstance(o, HObj) and o.name == 'flow' or (isinstance(o, HObj) and 'flow' in o.fields):
                got = W.names(s, v) if o.cls.name == fam.name and v != W.me else 'a %s' % o.cls.name
            elif isinstance(o, HObj):
                got = o.name
            elif isinstance(o, HList):
                got = [s.obj(x).name for x in o.items]
            elif is_const(v):
                got = cval(v)
            else:
                got = show(v)
                d = W.w.policy.decide(W.w, v, s)
                if d is not None:
                    got = d
            c.obl('query', label, got == want, fi.loc(), 'gives %s instead of %s' % (got, want), trace_lines(s))
            c.obl('operand-unchanged', label, W.names(s, W.me) == start, fi.loc(), 'reading changes the flow')


def circular_nodes(c, fam):
    """input and output node of a circular flow: refused outside the flow, otherwise effective"""
    if not fam.circular:
        return
    prog = c.prog
    kinds = {'*': 'F'}
    # unset dimensions: any rotation is compatible
    for n in (1, 2, 3):
        start = ['u', 'u2', 'u3'][:n]
        for meth in ('set_input_node', 'set_output_node'):
            for i in range(-1, n + 2):
                for o in range(n):
                    one_circular(c, fam, prog, n, meth, i, o)


def one_circular(c, fam, prog, n, meth, i, o):
    names = ['n%d' % k for k in range(n)]
    pol = NodeModelPolicy(prog, {x: NodeSpec(0) for x in names}, {}, ('arr',))
    pol.fail_ops = ()
    w = Walker(prog, pol)
    st = w.new_state()
    refs = pol.make(st, w, names)
    me = w.new_obj(st, prog.find_class(fam.cls), 'flow')
    (k, v, st), = w.run_method(st, me, '__init__', [st.alloc(HList(refs))])
    (k, v, st), = w.run_method(st, me, 'set_output_node', [Const(o)])
    label = '%s[%d nodes;out=%d].%s(%d)' % (fam.name, n, o, meth, i)
    fi = prog.method(prog.find_class(fam.cls), meth)
    c.count('container scenarios')
    order, out = list(names), o
    bad = i < 0 or i >= n
    if not bad:
        if meth == 'set_input_node':
            order = names[i:] + names[:i]
            out = order.index(names[o])
        else:
            out = i
    want = 'arr'
    for x in order[:out + 1]:
        want = '%s(%s)' % (x, want)
    for k, v, s in w.run_method(st, me, meth, [Const(i)]):
        c.obl('refused' if bad else 'accepted', label, (k == RAISE) == bad, fi.loc(),
              'node number %d of %d is %s' % (i, n, 'accepted' if k == RETURN else 'refused with ' + v.name), trace_lines(s))
        if bad and k == RETURN:
            continue
        for k2, v2, s2 in w.run_method(s, me, 'execute', [Tok('arr')]):
            got = text(v2) if k2 == RETURN else v2.name
            c.obl('output-node', label, got == want, fi.loc(), 'execution gives %s instead of %s' % (got, want), op_lines(s2))
