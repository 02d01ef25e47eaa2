"""Model classes for the extension mechanism.

A class is an abstract object with its own dictionary and a method resolution
order; the code of the extension mechanism is interpreted on such classes.
Attribute values are tokens, setup/teardown functions are hooks that may fail.
"""
import ast

from .model import AnalysisError, ClassInfo, dotted
from .proto import Hook, Tok, TokenPolicy, is_tok
from .walker import (Attr, ClassV, Const, Exc, Ext, FALSE, Func, HDict, HList, HObj, NONE, Op, RAISE, RETURN, TRUE, Tup, V, Walker,
                     cval, is_const, show)

MOD = 'mdp.extension'


def c3(seqs):
    seqs = [list(s) for s in seqs if s]
    out = []
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise AnalysisError('inconsistent model hierarchy')
        out.append(h)
        seqs = [[x for x in t if x != h] for t in seqs]
        seqs = [t for t in seqs if t]
    return out


class ExtPolicy(TokenPolicy):
    max_depth = 20
    while_bound = 6
    fail_hooks = ()
    cache = False           # class dictionaries change

    def __init__(self, prog, fail_hooks=()):
        self.prog = prog
        self.fail_hooks = set(fail_hooks)
        self.extnode = prog.find_class(MOD + '.ExtensionNode')
        self.meta = prog.find_class(MOD + '.ExtensionNodeMetaclass')
        self.nodemeta = prog.find_class('mdp.signal_node.NodeMetaclass')

    # ------------------------------------------------------------- set-up
    def start(self, w):
        st = w.new_state()
        m = self.prog.module(MOD)
        n = 0
        for stt in m.tree.body:
            if not (isinstance(stt, ast.Assign) and len(stt.targets) == 1 and isinstance(stt.targets[0], ast.Name)):
                continue
            e, name = stt.value, stt.targets[0].id
            f = dotted(e.func) if isinstance(e, ast.Call) else None
            if isinstance(e, ast.Dict) and not e.keys or f in ('dict', 'OrderedDict', 'collections.OrderedDict') and not e.args:
                v = HDict()
            elif isinstance(e, ast.List) and all(isinstance(x, ast.Constant) for x in e.elts):
                v = HList([Const(x.value) for x in e.elts])
            elif isinstance(e, (ast.Tuple, ast.Set)) and all(isinstance(x, ast.Constant) for x in e.elts):
                st.globals[(MOD, name)] = Tup([Const(x.value) for x in e.elts])
                continue
            elif f == 'set' and not e.args:
                v = HList((), kind='set')
            elif f == 'list' and not e.args:
                v = HList()
            else:
                continue
            n += 1
            st.globals[(MOD, name)] = st.alloc(v)
        if n < 2:
            raise AnalysisError('the registry of extensions was not found in %s' % MOD)
        return st

    def new_class(self, st, name, bases=(), fields=None, meta=None):
        ref = st.alloc(HObj(None, dict(fields or {}), name))
        mro = [ref] + (c3([list(st.notes[('mro', b)]) for b in bases] + [list(bases)]) if bases else [])
        st.notes[('mro', ref)] = tuple(mro)
        st.notes[('bases', ref)] = tuple(bases)
        st.notes[('meta', ref)] = meta or self.nodemeta
        return ref

    def is_model(self, st, v):
        return v is not None and v.tag == 'ref' and ('mro', v) in st.notes

    def find(self, st, ref, name):
        """the attribute as found along the method resolution order"""
        for k in st.notes[('mro', ref)]:
            f = st.obj(k).fields
            if name in f:
                return f[name]
        return None

    # ---------------------------------------------------------- semantics
    def load_global(self, w, module, name, st):
        r = self.prog.resolve_in(module, name)
        if r[0] == 'class' and r[1] is self.extnode and 'extnode' in st.notes:
            return st.notes['extnode']
        return None

    def load_method(self, w, ref, o, name, st):
        if not self.is_model(st, ref):
            return None
        if name == '__mro__':
            return Tup(st.notes[('mro', ref)])
        if name == '__bases__':
            return Tup(st.notes[('bases', ref)])
        if name in ('__name__', '__qualname__'):
            return Const(o.name)
        if name == '__dict__':
            return None
        return self.find(st, ref, name)

    def load_field(self, w, ref, o, name, st):
        if self.is_model(st, ref):
            return (Exc('AttributeError', origin=Op('noattr', ref, Const(name))), st)
        return None

    def same(self, st, a, b):
        for x in (a, b):
            if not (self.is_model(st, x) or is_const(x) or is_tok(x) or x.tag == 'ref' or x.tag in ('class', 'func')):
                return None
        if is_const(a) and is_const(b):
            return cval(a) == cval(b)
        return a == b

    def decide(self, w, t, st):
        if t.tag == 'op' and len(t.k) == 4:
            a, b = t.k[2], t.k[3]
            if t.k[1] in ('==', 'is'):
                r = self.same(st, a, b)
                if r is not None and (self.is_model(st, a) or self.is_model(st, b) or r):
                    return r
                if r is not None and (is_tok(a) or is_tok(b)):
                    return r
            if t.k[1] == 'in':
                if b.tag == 'objdict' and self.is_model(st, b.k[1]) and is_const(a):
                    return cval(a) in st.obj(b.k[1]).fields
                o = st.obj(b)
                items = None
                if b.tag == 'tup':
                    items = b.k[1:]
                elif isinstance(o, HList) and not o.open:
                    items = o.items
                elif isinstance(o, HDict) and not o.open:
                    items = [x for x, _ in o.items]
                if items is not None:
                    r = [self.same(st, a, x) for x in items]
                    if None not in r:
                        return any(r)
            if t.k[1] == 'hasattr' and self.is_model(st, a) and is_const(b):
                return self.find(st, a, cval(b)) is not None
            if t.k[1] == 'isinstance' and is_const(a) and b.tag == 'item' and 'builtins' in show(b):
                return type(cval(a)).__name__ == cval(b.k[2])
            if t.k[1] == 'isinstance' and b.tag == 'item' and 'builtins' in show(b):
                return False
        return TokenPolicy.decide(self, w, t, st)

    def may_raise(self, w, f, args, kw, n, fi, st):
        if f.tag == 'ext' and f.k[1].startswith('hook:'):
            name = f.k[1][5:]
            return () if name not in self.fail_hooks else ('HookError', 'KeyboardInterrupt') if name == 'body' else ('HookError',)
        return ()

    def intercept(self, w, f, args, kw, n, fi, st):
        a = args[0] if args else None
        if f.tag == 'ext':
            nm = f.k[1]
            if nm in ('getattr', 'hasattr') and self.is_model(st, a) and is_const(args[1]):
                v = self.load_method(w, a, st.obj(a), cval(args[1]), st)
                if cval(args[1]) in st.obj(a).fields:
                    v = st.obj(a).fields[cval(args[1])]
                if nm == 'hasattr':
                    return [(Const(v is not None), st)]
                if v is not None:
                    if is_tok(v) and v.k[1].startswith('@static_'):
                        v = Tok('function_of_' + v.k[1][1:])
                    return [(v, st)]
                if cval(args[1]) == '__dict__':
                    return [(V(('objdict', a)), st)]
                if len(args) > 2:
                    return [(args[2], st)]
                return [(Exc('AttributeError', None, n, fi), st)]
            if nm == 'setattr' and self.is_model(st, a) and is_const(args[1]):
                st = st.copy()
                st.add_event('store', n, fi, base=a, name=cval(args[1]), value=args[2])
                st.mut(a).fields[cval(args[1])] = args[2]
                return [(NONE, st)]
            if nm == 'delattr' and self.is_model(st, a) and is_const(args[1]):
                if cval(args[1]) not in st.obj(a).fields:
                    return [(Exc('AttributeError', None, n, fi), st)]
                st = st.copy()
                st.add_event('delattr', n, fi, base=a, name=cval(args[1]))
                del st.mut(a).fields[cval(args[1])]
                return [(NONE, st)]
            if nm == 'dir' and self.is_model(st, a):
                names = sorted({x for k in st.notes[('mro', a)] for x in st.obj(k).fields})
                st = st.copy()
                return [(st.alloc(HList([Const(x) for x in names])), st)]
            if nm == 'vars' and self.is_model(st, a):
                return [(V(('objdict', a)), st)]
            if nm == 'type' and len(args) == 1 and self.is_model(st, a):
                return [(ClassV(st.notes[('meta', a)]), st)]
            if nm == 'isinstance' and self.is_model(st, a) and args[1].tag == 'class':
                return [(Const(self.prog.is_subclass(st.notes[('meta', a)], args[1].k[1])), st)]
            if nm == 'issubclass' and self.is_model(st, a) and self.is_model(st, args[1]):
                return [(Const(args[1] in st.notes[('mro', a)]), st)]
            if nm in ('inspect.getmro',) and self.is_model(st, a):
                return [(Tup(st.notes[('mro', a)]), st)]
        if f.tag == 'attr':
            b, m = f.k[1], f.k[2]
            if m == 'mro' and self.is_model(st, b):
                return [(Tup(st.notes[('mro', b)]), st)]
            if b.tag == 'objdict' and self.is_model(st, b.k[1]):
                o = st.obj(b.k[1])
                items = list(o.fields.items())
                if m == 'get' and is_const(a):
                    return [(o.fields.get(cval(a), args[1] if len(args) > 1 else NONE), st)]
                if m in ('items', 'keys', 'values', 'copy', '__iter__') and not args:
                    st = st.copy()
                    if m == 'items':
                        v = HList([Tup([Const(x), y]) for x, y in items])
                    elif m in ('keys', '__iter__'):
                        v = HList([Const(x) for x, y in items])
                    elif m == 'values':
                        v = HList([y for x, y in items])
                    else:
                        v = HDict([(Const(x), y) for x, y in items])
                    return [(st.alloc(v), st)]
        if f.tag == 'func':
            g = f.k[1]
            if g.name == '__new__' and g.cls is not None and g.cls is not self.meta and self.prog.is_subclass(self.meta, g.cls):
                return self.make_class(w, args, n, fi, st)
            if g.cls is self.nodemeta and g.name == '_wrap_function':
                return [(args[0], st)]
            if g.cls is self.nodemeta and g.name == '_function_infodict':
                return [(Tok('infodict'), st)]
        if f.tag == 'call' and f.k[1] == Ext('functools.wraps') and len(args) == 1:
            return [(args[0], st)]
        return TokenPolicy.intercept(self, w, f, args, kw, n, fi, st)

    def make_class(self, w, args, n, fi, st):
        """super().__new__(cls, classname, bases, members)"""
        if args and args[0].tag == 'class':
            args = args[1:]
        name, bases, members = args[:3]
        st = st.copy()
        o = st.obj(members)
        bl = list(bases.k[1:]) if bases.tag == 'tup' else list(st.obj(bases).items)
        ref = self.new_class(st, cval(name), bl, {cval(k): v for k, v in o.items}, self.meta)
        return [(ref, st)]

    # -------------------------------------------------------------- driving
    def fn(self, name):
        f = self.prog.find_function(MOD + '.' + name)
        if f is None:
            raise AnalysisError('public function %s not found' % name)
        return f

    def call(self, w, states, fname, *args):
        """[(kind, value, state)] of calling the public function in every state"""
        out = []
        for s in states:
            out.extend(w.run_func(s, self.fn(fname), list(args)))
        return out

    def call_value(self, w, s, f, args):
        if f.tag == 'func':
            return w.run_func(s, f.k[1], list(args), {}, selfv=f.k[3], env=f.k[2])
        raise AnalysisError('%s is not a function' % show(f))
