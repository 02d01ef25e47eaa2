"""Value terms: algorithm code interpreted over uninterpreted pure operations.

Calls into numpy/scipy and module level helpers without abstract objects among
their arguments become pure terms; attributes of program objects live on the
abstract heap.  Two computations agree when they leave the same terms, where
sums and concatenations are compared as multisets of their parts.
"""
from .model import ClassInfo
from .proto import Tok, TokenPolicy, is_tok
from .walker import (Attr, Call, ClassV, Const, Exc, Ext, FALSE, Func, HDict, HList, HObj, Item, NONE, Op, RAISE, RETURN, TRUE, Tup, V, Walker,
                     cval, is_const, lin_add, show)

ZEROS = Op('zeros')


def has_obj(st, v, depth=0):
    """v contains a program object (whose fields a callee could change)"""
    if v.tag == 'ref':
        o = st.obj(v)
        if isinstance(o, HObj):
            return True
        if depth > 3:
            return True
        if isinstance(o, HList):
            return any(has_obj(st, x, depth + 1) for x in o.items)
        if isinstance(o, HDict):
            return any(has_obj(st, x, depth + 1) for kv in o.items for x in kv)
        return True
    if v.tag in ('tup', 'op', 'attr', 'item'):
        return any(isinstance(x, V) and has_obj(st, x, depth + 1) for x in v.k[1:])
    if v.tag == 'func':
        return v.k[3] is not None
    return False


def row_selection(v):
    """the array of which v is a selection of rows"""
    if v.tag == 'item':
        i = v.k[2]
        if i.tag == 'slice' or i.tag == 'tup' and all(x.tag == 'slice' for x in i.k[1:]):
            return v.k[1]
        if i.tag == 'op':            # boolean or integer index arrays
            return v.k[1]
    if v.tag == 'op' and v.k[1] == 'pure':
        nm = cval(v.k[2])
        if nm in ('.copy', '.astype', 'numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray') and len(v.k) > 3:
            return v.k[3]
        if nm in ('numpy.compress', 'numpy.take') and len(v.k) > 5 and v.k[5] == Op('kw', Tup([Const('axis'), Const(0)])):
            return v.k[4] if nm == 'numpy.compress' else v.k[3]
        if nm in ('.compress', '.take') and v.k[-1] == Op('kw', Tup([Const('axis'), Const(0)])):
            return v.k[3]
    return None


def freeze(st, v, depth=0):
    """containers of plain values become tuples inside pure terms"""
    o = st.obj(v)
    if isinstance(o, HList) and not o.open and depth < 4:
        return Tup([freeze(st, x, depth + 1) for x in o.items])
    if isinstance(o, HDict) and not o.open and depth < 4:
        return Op('dict', *[Tup([freeze(st, a, depth + 1), freeze(st, b, depth + 1)]) for a, b in o.items])
    return v


class TermPolicy(TokenPolicy):
    max_depth = 24
    while_bound = 3
    hooks_raise = False

    def __init__(self, prog, labels=None):
        self.prog = prog
        self.labels = labels or {}        # label token -> list of constant labels
        self.ext = {}                     # node class -> classes whose attributes are injected

    # -------------------------------------------------- extension injection
    def inject(self, base):
        """activate the extension whose superclass is given"""
        for k in self.prog.subclasses(base):
            if k is base:
                continue
            for b in self.prog.bases(k):
                if isinstance(b, ClassInfo) and not self.prog.is_subclass(b, base):
                    self.ext.setdefault(b, []).append(k)
        for b in self.prog.bases(base):
            if isinstance(b, ClassInfo) and b.name == 'Node':
                self.ext.setdefault(b, []).append(base)

    def find_method(self, ci, name):
        """(FuncInfo or class value) found for an object of the class with the extension active"""
        for k in self.prog.mro(ci):
            if not isinstance(k, ClassInfo):
                continue
            for e in self.ext.get(k, ()):
                if name in e.methods:
                    return e.methods[name]
            if name in k.methods:
                return k.methods[name]
        return None

    def load_method(self, w, ref, o, name, st):
        if o.cls is None or not self.ext:
            return None
        f = self.find_method(o.cls, name)
        if f is not None and not f.is_property and any(f.cls in es for es in self.ext.values()):
            return Func(f, None, None if f.is_static else ref)
        return None

    def load_field(self, w, ref, o, name, st):
        if o.cls is not None and not name.startswith('__'):
            return (Exc('AttributeError', origin=Op('noattr', ref, Const(name))), st)
        return None

    def load_term(self, w, b, name, st):
        if name not in ('dtype', 'ndim', 'shape'):
            return None
        if b.tag == 'op' and b.k[1] == 'zeros' and name == 'dtype' and len(b.k) > 2:
            return b.k[2]
        base = row_selection(b)
        if base is None and b.tag == 'attr' and b.k[2] == 'T' and name != 'shape':
            base = b.k[1]
        if base is None and b.tag == 'lin':
            base = sorted((x for x, c in b.k[1]), key=repr)[0]
        if base is None and b.tag == 'op' and b.k[1] in ('+', '-', '*', '/') and len(b.k) == 4 and not is_const(b.k[2]):
            base = b.k[2]
        if base is None:
            return None
        ov = st.notes.get(('ovr', base, name)) or self.load_term(w, base, name, st)
        if ov is None:
            return None
        if name == 'shape':
            if ov.tag != 'tup':
                return None
            i = b.k[2] if b.tag == 'item' else NONE
            dims = list(ov.k[1:])
            if i.tag == 'tup' and len(i.k) - 1 <= len(dims):
                out = []
                for d, x in zip(dims, i.k[1:]):
                    lo, hi, step = x.k[1:]
                    if lo == hi == step == NONE:
                        out.append(d)
                    elif step == NONE and lo != NONE and hi != NONE and lin_add(hi, lo, -1) is not None:
                        out.append(lin_add(hi, lo, -1))
                    else:
                        out.append(Op('extent', d, x))
                return Tup(out + dims[len(out):])
            return Tup([Op('rows', b)] + dims[1:])
        return ov

    # ------------------------------------------------------------- terms
    def pure(self, st, name, args, kw):
        args = [freeze(st, a) for a in args]
        if kw:
            args.append(Op('kw', *[Tup([Const(k), freeze(st, v)]) for k, v in sorted(kw.items())]))
        return Op('pure', Const(name), *args)

    def label_of(self, v):
        while v.tag == 'op' and v.k[1] == 'pure' and len(v.k) > 3:
            v = v.k[3]
        return self.labels.get(v)

    def decide(self, w, t, st):
        if t.tag == 'op' and t.k[1] == 'isinstance':
            v, k = t.k[2], t.k[3]
            names = [x.k[1] for x in (k.k[1:] if k.tag == 'tup' else [k]) if x.tag == 'ext']
            if v in self.labels or self.array_like(v):
                return any(n in ('numpy.ndarray',) for n in names)
        if t.tag == 'op' and t.k[1] == 'is' and NONE in t.k[2:]:
            x = t.k[2] if t.k[3] == NONE else t.k[3]
            if x.tag == 'lin' or x.tag == 'item' and row_selection(x) is not None or x.tag == 'op' and (
                    x.k[1] in ('zeros', 'cat', '+', '-', '*', '/', '@') or x.k[1] == 'pure' and cval(x.k[2]).split('.')[0] in ('numpy', 'scipy')):
                return False
        if t.tag == 'op' and t.k[1] == 'hasattr' and is_const(t.k[3]):
            o = st.obj(t.k[2])
            if isinstance(o, HObj) and o.cls is not None:
                return cval(t.k[3]) in o.fields or self.prog.lookup(o.cls, cval(t.k[3])) is not None
        if t.tag == 'op' and t.k[1] == 'in' and is_const(t.k[2]):
            o = st.obj(t.k[3])
            if isinstance(o, HDict) and not o.open and all(is_const(k) for k, _ in o.items):
                return any(k == t.k[2] for k, _ in o.items)
        return TokenPolicy.decide(self, w, t, st)

    def array_like(self, v):
        return is_tok(v) and v.k[1].startswith('@x')

    def iter_values(self, w, v, n, fi, st):
        if v.tag == 'op' and v.k[1] in ('set', 'frozenset', 'sorted', 'list') or v.tag == 'op' and v.k[1] == 'pure':
            ls = self.labels_in(v)
            if ls is not None:
                return [Const(x) for x in ls]
        return None

    def labels_in(self, v):
        if v.tag == 'op' and v.k[1] == 'pure' and cval(v.k[2]) in ('numpy.unique', 'set', 'frozenset', 'numpy.asarray', 'numpy.array'):
            return self.label_of(v.k[3])
        return None

    def intercept(self, w, f, args, kw, n, fi, st):
        if f.tag == 'ext':
            nm = f.k[1]
            if nm in ('set', 'frozenset', 'numpy.unique', 'sorted', 'list', 'numpy.asarray') and args:
                ls = self.label_of(args[0])
                if ls is not None and nm != 'numpy.asarray':
                    st = st.copy()
                    return [(st.alloc(HList([Const(x) for x in ls], kind='set' if 'set' in nm else 'list')), st)]
            if nm == 'numpy.dtype' and len(args) == 1:
                return [(args[0], st)]
            if nm in ('numpy.zeros', 'numpy.zeros_like'):
                dt = kw.get('dtype') or (args[1] if len(args) > 1 else None)
                return [(Op('zeros', dt) if dt is not None else ZEROS, st)]
            if nm in ('copy.deepcopy', 'copy.copy') and args:
                st = st.copy()
                return [(deep_copy(st, args[0], {}) if nm == 'copy.deepcopy' else shallow_copy(st, args[0]), st)]
            if nm in ('inspect.getfullargspec', 'inspect.getargspec') and args and args[0].tag == 'func':
                return [self.argspec(args[0].k[1], st)]
            if nm in ('numpy.concatenate', 'numpy.vstack', 'numpy.append', 'numpy.r_') and args:
                x = freeze(st, args[0])
                parts = list(x.k[1:]) if x.tag == 'tup' else None
                if nm == 'numpy.append' and len(args) > 1:
                    parts = [x, freeze(st, args[1])]
                if parts:
                    r = parts[0]
                    for p in parts[1:]:
                        r = Op('cat', r, p)
                    return [(r, st)]
            if nm in ('warnings.warn', 'logging.warning', 'warnings.filterwarnings'):
                return [(NONE, st)]
            if '.' in nm and nm.split('.')[0] in ('numpy', 'scipy', 'math', 'operator', 'past') and not any(has_obj(st, a) for a in list(args) + list(kw.values())):
                return [(self.pure(st, nm, args, kw), st)]
        if f.tag == 'func':
            g = f.k[1]
            if g.name == 'refcast' and len(args) == 2:
                return [(args[0], st)]
            if g.cls is None and g.parent is None and g.module.name.startswith('mdp.utils') and not any(has_obj(st, a) for a in list(args) + list(kw.values())):
                return [(self.pure(st, g.name, args, kw), st)]
            if g.name in ('_get_supported_dtypes', 'get_supported_dtypes') and f.k[3] is not None:
                st = st.copy()
                return [(st.alloc(HList([Tok('dt')])), st)]
        if f.tag == 'attr':
            b, m = f.k[1], f.k[2]
            if st.obj(b) is None and b.tag in ('sym', 'op', 'item', 'attr', 'call', 'lin') and not any(has_obj(st, a) for a in list(args) + list(kw.values())) \
                    and not has_obj(st, b):
                return [(self.pure(st, '.' + m, [b] + list(args), kw), st)]
        return TokenPolicy.intercept(self, w, f, args, kw, n, fi, st)

    def argspec(self, g, st):
        st = st.copy()
        a = g.node.args
        names = [Const(x.arg) for x in a.args]
        from .walker import Ctx
        d = Tup([Tok('default%d' % i) for i in range(len(a.defaults))]) if a.defaults else NONE
        lst = st.alloc(HList(names))
        return Tup([lst, Const(a.vararg.arg) if a.vararg else NONE, Const(a.kwarg.arg) if a.kwarg else NONE, d,
                    st.alloc(HList([Const(x.arg) for x in a.kwonlyargs])), NONE, NONE]), st


def deep_copy(st, v, memo):
    if v.tag == 'ref':
        if v in memo:
            return memo[v]
        o = st.obj(v)
        if isinstance(o, HObj):
            n = HObj(o.cls, {}, o.name)
            r = memo[v] = st.alloc(n)
            st.mut(r).fields.update({k: deep_copy(st, x, memo) for k, x in o.fields.items()})
            return r
        if isinstance(o, HList):
            r = memo[v] = st.alloc(HList((), o.open, o.kind))
            st.mut(r).items = tuple(deep_copy(st, x, memo) for x in o.items)
            return r
        if isinstance(o, HDict):
            r = memo[v] = st.alloc(HDict((), o.open))
            st.mut(r).items = tuple((deep_copy(st, a, memo), deep_copy(st, b, memo)) for a, b in o.items)
            return r
        return v
    if v.tag == 'tup':
        return Tup([deep_copy(st, x, memo) for x in v.k[1:]])
    if v.tag == 'func' and v.k[3] is not None:
        return Func(v.k[1], v.k[2], deep_copy(st, v.k[3], memo))
    return v


def shallow_copy(st, v):
    o = st.obj(v)
    if isinstance(o, HObj):
        return st.alloc(HObj(o.cls, dict(o.fields), o.name))
    if isinstance(o, HList):
        return st.alloc(HList(o.items, o.open, o.kind))
    if isinstance(o, HDict):
        return st.alloc(HDict(o.items, o.open))
    return v


# ---------------------------------------------------------------- comparing
def parts(v, op):
    if v.tag == 'op' and v.k[1] == op:
        return parts(v.k[2], op) + parts(v.k[3], op)
    return [v]


def canon(st, v, ids=None, depth=0, bag=False):
    """canonical text of a value; objects are compared by structure"""
    ids = {} if ids is None else ids
    o = st.obj(v)
    if o is not None:
        if v in ids:
            return '#%d' % ids[v]
        ids[v] = len(ids)
        if depth > 12:
            return '...'
        if isinstance(o, HObj):
            return '%s{%s}' % (o.cls.name if o.cls else o.name, ', '.join('%s: %s' % (k, canon(st, x, ids, depth + 1, bag)) for k, x in sorted(o.fields.items())
                                                                                if not (depth and k == '_dtype')))
        if isinstance(o, HList):
            # the number type of a contained node follows from the next input
            xs = [canon(st, x, ids, depth + 1, bag) for x in o.items]
            if bag and o.kind == 'list' and all(st.obj(x) is None for x in o.items):
                xs.sort()
            return '%s[%s%s]' % ('' if o.kind == 'list' else o.kind, ', '.join(xs), ', ...' if o.open else '')
        if isinstance(o, HDict):
            xs = sorted('%s: %s' % (canon(st, a, ids, depth + 1, bag), canon(st, b, ids, depth + 1, bag)) for a, b in o.items)
            return '{%s%s}' % (', '.join(xs), ', ...' if o.open else '')
        return '?'
    t = v.tag
    if t == 'op' and v.k[1] in ('+', 'cat'):
        ps = [p for p in parts(v, v.k[1]) if not (v.k[1] == '+' and (p == Const(0) or p.tag == 'op' and p.k[1] == 'zeros'))]
        xs = sorted(canon(st, p, ids, depth + 1, bag) for p in ps)
        if not xs:
            return 'zeros'
        return xs[0] if len(xs) == 1 else '%s(%s)' % ('sum' if v.k[1] == '+' else 'cat', ', '.join(xs))
    if t == 'op':
        return '%s(%s)' % (v.k[1], ', '.join(canon(st, x, ids, depth + 1, bag) if isinstance(x, V) else str(x) for x in v.k[2:]))
    if t == 'tup':
        return '(%s)' % ', '.join(canon(st, x, ids, depth + 1, bag) for x in v.k[1:])
    if t == 'attr':
        return '%s.%s' % (canon(st, v.k[1], ids, depth + 1, bag), v.k[2])
    if t == 'item':
        return '%s[%s]' % (canon(st, v.k[1], ids, depth + 1, bag), canon(st, v.k[2], ids, depth + 1, bag))
    if t == 'lin':
        return 'sum(%s)' % ', '.join(sorted(['%s*%s' % (c, canon(st, x, ids, depth + 1, bag)) for x, c in v.k[1]] + ([str(v.k[2])] if v.k[2] else [])))
    if t == 'func':
        return 'func %s%s' % (v.k[1].qualname, '' if v.k[3] is None else '@' + canon(st, v.k[3], ids, depth + 1, bag))
    return show(v)


def field_canon(st, ref, skip=(), bag=False):
    o = st.obj(ref)
    ids = {ref: 0}
    return {k: canon(st, v, dict(ids), 1, bag) for k, v in o.fields.items() if k not in skip}
