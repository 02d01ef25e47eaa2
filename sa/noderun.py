"""Every public operation of every node class, run through the effect analysis."""
import ast

from .effects import AV, ARRAY, Effects, NOTHING, locname, root
from .model import ClassInfo

DATA = {'x', 'y', 'v', 'h', 'x2', 'data', 'input', 'inp', 'xs', 'dt_x'}
NODE_CONTRACT = ('train', 'stop_training', 'execute', 'inverse', '__call__', '_pre_execution_checks', 'label', 'prob', 'rank', 'fork', 'join')
SKIP = {'save', 'copy', '__add__', '__repr__', '__str__'}


def contract(eng, b, args, kw, e, fr):
    return AV(arr=True)


class NodeRun(object):
    """objects of one class; entries share the heap so that kept references are seen"""

    def __init__(self, prog, ci, entries=None):
        self.prog, self.ci = prog, ci
        self.eng = Effects(prog, {n: contract for n in NODE_CONTRACT})
        self.selfv = self.eng.obj('self', ci)
        self.entries = entries if entries is not None else self.public()

    def public(self):
        names = []
        for k in self.prog.mro(self.ci):
            if isinstance(k, ClassInfo):
                for n, f in k.methods.items():
                    if n not in names and (not n.startswith('_') or n in ('__init__', '__call__')) and n not in SKIP \
                            and not f.is_property and not f.is_classmethod:
                        names.append(n)
        names.sort(key=lambda n: (n != '__init__', n != 'train', n != 'stop_training', n))
        return names

    def params(self, name, fi):
        args, kw = [], {}
        ps = fi.params()
        if not fi.is_static:
            ps = ps[1:]
        star = starkw = NOTHING
        for n, hasd, d, kind in ps:
            p = ('P', '%s of %s' % (n, name))
            arr = kind == 'pos' and name != '__init__' and n in DATA
            if arr:
                self.eng.data.add(p)
            v = AV(frozenset([p]), arr)
            if kind == 'pos':
                args.append(v)
            elif kind == 'kwonly':
                kw[n] = v
            elif name == 'stop_training':
                pass                 # documented to take no data; what reaches the inner method comes from subclasses
            elif kind == 'var':
                star = v
            else:
                starkw = v
        return args, kw, star, starkw

    def run(self, rounds=3):
        eng = self.eng
        for _ in range(rounds):
            eng.changed = False
            for name in self.entries:
                fi = self.prog.method(self.ci, name)
                if fi is None:
                    continue
                args, kw, star, starkw = self.params(name, fi)
                eng.entry, eng.memo = name, {}
                eng.call(fi, None if fi.is_static else self.selfv, args, kw, fi.node, None, None, star, starkw)
            if not eng.changed:
                break
        return eng


def node_classes(prog):
    node = prog.find_class('mdp.signal_node.Node')
    par = prog.find_class('mdp.parallel.parallelnodes.ParallelExtensionNode')
    ext = prog.find_class('mdp.extension.ExtensionNode')
    ks = [k for k in prog.subclasses(node) if not prog.is_subclass(k, par) and not prog.is_subclass(k, ext)
          and '.test' not in k.module.name and k.parent_func is None]
    return [node] + sorted(ks, key=lambda k: k.qualname)


def mutated_arguments(eng):
    out = []
    for k, entry in eng.effects.items():
        if k[0] != 'mut':
            continue
        _, l, how, fi, node, sure = k
        r = root(l)
        if r in eng.defaults and sure:
            out.append((('P', eng.defaults[r]), l, how, fi, node, entry))
        elif r[0] == 'P' and sure:
            out.append((r, l, how, fi, node, entry))
    return out
