"""Result containers."""
import itertools

from sa.proto import Tok, TokenPolicy, is_tok
from sa.walker import Attr, Const, Exc, HDict, HList, HObj, NONE, Op, RAISE, RETURN, Tup, Walker, show

TITLE = 'Result containers return every result once, in task order where promised'
RULES = ('Abstract interpretation of every result container on all arrival orders of up to 3 (thorough: 4) results, two rounds of use each: '
         'the collected value is compared with the promised order, the container must be empty afterwards, '
         'forked flow nodes must be joined into one result exactly once per round.')
ASSUMPTIONS = ['flownode.join adds the other flow node to the first one (P01)']
BASE = 'mdp.parallel.scheduling.ResultContainer'
KIND = {'ListResultContainer': 'arrival', 'OrderedResultContainer': 'task', 'TrainResultContainer': 'join', 'ExecuteResultContainer': 'execute'}


class Pol(TokenPolicy):
    while_bound = 6

    def decide(self, w, t, st):
        return TokenPolicy.decide(self, w, t, st)

    def intercept(self, w, f, args, kw, n, fi, st):
        if f.tag == 'attr' and is_tok(f.k[1]) and f.k[2] == 'join' and len(args) == 1:
            st = st.copy()
            a, b = f.k[1], args[0]
            st.notes[('joined', a)] = st.notes.get(('joined', a), ()) + (b,) + st.notes.get(('joined', b), ())
            return [(NONE, st)]
        return TokenPolicy.intercept(self, w, f, args, kw, n, fi, st)


def flat(st, v):
    o = st.obj(v)
    if isinstance(o, HList):
        if o.open:
            return None
        return [flat(st, x) for x in o.items]
    if v.tag == 'tup':
        return [flat(st, x) for x in v.k[1:]]
    if v.tag == 'op' and v.k[1] == 'zip':
        parts = [flat(st, x) for x in v.k[2:]]
        return None if any(not isinstance(p, list) for p in parts) else [list(x) for x in zip(*parts)]
    if v.tag == 'op' and v.k[1] in ('list', 'tuple'):
        return flat(st, v.k[2])
    return show(v)


def run(c):
    prog = c.prog
    base = prog.find_class(BASE)
    classes = [k for k in prog.subclasses(base) if k is not base] if True else []
    for ci in sorted(classes, key=lambda k: k.name):
        kind = KIND.get(ci.name)
        if kind is None:
            # an unknown container keeps the promise of its nearest known base
            kind = next((KIND[k.name] for k in prog.mro(ci) if getattr(k, 'name', None) in KIND), None)
        if kind is None:
            continue
        one(c, ci, kind)
    c.need('containers', 4)


def value(kind, rnd, i, fork):
    if kind == 'join':
        return Tok('f%d_%d' % (rnd, i))
    if kind == 'execute':
        return Tup([Tok('y%d_%d' % (rnd, i)), Tok('f%d_%d' % (rnd, i)) if fork else NONE])
    return Tok('r%d_%d' % (rnd, i))


def one(c, ci, kind):
    prog = c.prog
    c.count('containers')
    top = 4 if c.tier == 'thorough' else 3
    loc_get = prog.method(ci, 'get_results').loc()
    for n1 in range(0, top + 1):
        for order in itertools.permutations(range(n1)):
            for fork in ((False, True) if kind == 'execute' else (False,)):
                if n1 == 0 and kind in ('join', 'execute'):
                    continue
                pol = Pol()
                w = Walker(prog, pol)
                st = w.new_state()
                states = [(w.new_obj(st, ci, 'cont'), st)]
                init = prog.method(ci, '__init__')
                if init is not None:
                    states = [(states[0][0], s) for k, v, s in w.run_func(st, init, [], {}, selfv=states[0][0]) if k == RETURN]
                label = ci.name
                for rnd, odr in ((0, order), (1, tuple(reversed(order)))):
                    nxt = []
                    for ref, s in states:
                        cur = [s]
                        for i in odr:
                            step = []
                            for s1 in cur:
                                for k, v, s2 in w.run_method(s1, ref, 'add_result', [value(kind, rnd, i, fork), Const(10 * rnd + i)]):
                                    c.obl('accepts', label, k == RETURN, prog.method(ci, 'add_result').loc(), 'add_result fails with %s' % getattr(v, 'name', ''))
                                    if k == RETURN:
                                        step.append(s2)
                            cur = step
                        for s1 in cur:
                            for k, v, s2 in w.run_method(s1, ref, 'get_results'):
                                path = ['arrival order of round %d: %s' % (rnd, list(odr))]
                                c.obl('collects', label, k == RETURN, loc_get, 'get_results fails with %s' % getattr(v, 'name', ''), path)
                                if k != RETURN:
                                    continue
                                judge(c, ci, kind, label, rnd, odr, fork, v, s2, loc_get, path)
                                nxt.append((ref, s2))
                    states = nxt
                c.visits(w)
                c.count('orders')


def judge(c, ci, kind, label, rnd, odr, fork, v, s, loc, path):
    got = flat(s, v)
    if kind == 'arrival':
        want = [show(value(kind, rnd, i, fork)) for i in odr]
    elif kind == 'task':
        want = [show(value(kind, rnd, i, fork)) for i in sorted(odr)]
    elif kind == 'join':
        ok = isinstance(got, list) and len(got) == 1
        c.obl('one-result', label, ok, loc, 'returns %s instead of one joined flow node' % (got,), path)
        if ok:
            joined(c, label, rnd, odr, got[0], s, loc, path)
        return
    else:
        ok = isinstance(got, list) and all(isinstance(x, list) and len(x) == 2 for x in got)
        c.obl('shape', label, ok, loc, 'returns %s' % (got,), path)
        if not ok:
            return
        want = ['@y%d_%d' % (rnd, i) for i in sorted(odr)]
        c.obl('order', label, [x[0] for x in got] == want, loc, 'returns %s instead of %s' % ([x[0] for x in got], want), path)
        nodes = [x[1] for x in got if x[1] != show(NONE)]
        if fork:
            c.obl('one-result', label, len(nodes) == 1, loc, 'returns %d flow nodes' % len(nodes), path)
            if len(nodes) == 1:
                joined(c, label, rnd, odr, nodes[0], s, loc, path)
        else:
            c.obl('one-result', label, not nodes, loc, 'returns flow nodes %s although none was stored' % nodes, path)
        return
    c.obl('order', label, got == want, loc, 'returns %s instead of %s' % (got, want), path)


def joined(c, label, rnd, odr, name, s, loc, path):
    have = [name] + [show(x) for x in s.notes.get(('joined', Tok(name[1:])), ())]
    want = sorted('@f%d_%d' % (rnd, i) for i in odr)
    c.obl('joined-once', label, sorted(have) == want, loc, 'the joined result contains %s instead of %s' % (sorted(have), want), path)
