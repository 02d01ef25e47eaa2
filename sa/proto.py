"""Abstract actors for protocol (typestate) analyses.

Tokens are data-independent names: two different tokens are different values,
every token is a true, non-None value.  Because the analysed code can only
compare or forward a token, what holds for the tokens holds for every value.
"""
import ast

from .model import AnalysisError, ClassInfo, FuncInfo, dotted
from .walker import (Attr, Call, ClassV, Const, Event, Exc, Ext, FALSE, Func,
                     HDict, HList, HObj, Item, NONE, Op, Policy, RAISE, RETURN,
                     State, Sym, TRUE, Tup, V, Walker, callee_name, cval,
                     is_const, show)


def Tok(name):
    return Sym('@' + name)


def is_tok(v):
    return v.tag == 'sym' and v.k[1].startswith('@')


def Hook(name):
    """an extension point whose body is arbitrary user code"""
    return Ext('hook:' + name)


def hook_name(v):
    if v.tag == 'ext' and v.k[1].startswith('hook:'):
        return v.k[1][5:]
    return None


def array(st, name, ndim=2, rows=None, cols=None, dtype=None):
    """an abstract array argument"""
    a = Tok(name)
    rows = Tok('rows') if rows is None else rows
    dims = [rows, cols]
    st.notes[('ovr', a, 'ndim')] = Const(ndim)
    if ndim == 2:
        st.notes[('ovr', a, 'shape')] = Tup(dims)
    elif ndim == 1:
        st.notes[('ovr', a, 'shape')] = Tup([rows])
    else:
        st.notes[('ovr', a, 'shape')] = Tup([rows, cols, Tok('depth')])
    if dtype is not None:
        st.notes[('ovr', a, 'dtype')] = dtype
    return a


class TokenPolicy(Policy):
    """token semantics + hooks; every hook may fail"""
    hooks_raise = True
    extra_raise = ()

    def decide(self, w, t, st):
        if t.tag == 'op' and t.k[1] in ('==', 'is') and len(t.k) == 4:
            a, b = t.k[2], t.k[3]
            if is_tok(a) and is_tok(b):
                return a == b
            for x, y in ((a, b), (b, a)):
                if x.tag == 'tup' and is_const(y):
                    return False
                if is_tok(x) and is_const(y):
                    return False
                if hook_name(x) is not None and is_const(y):
                    return False
        if t.tag == 'op' and t.k[1] == '<' and is_tok(t.k[2]) and is_const(t.k[3]):
            c = cval(t.k[3])          # sizes are at least 1
            if isinstance(c, (int, float)) and c <= 1:
                return False
        if t.tag == 'op' and t.k[1] == 'in' and is_tok(t.k[2]):
            o = st.obj(t.k[3])
            items = None
            if isinstance(o, HList) and not o.open:
                items = o.items
            elif t.k[3].tag == 'tup':
                items = t.k[3].k[1:]
            if items is not None and all(is_tok(x) or is_const(x) for x in items):
                return t.k[2] in items
        if t.tag == 'op' and t.k[1] == 'in' and t.k[2].tag == 'ref':
            o = st.obj(t.k[3])
            items = o.items if isinstance(o, HList) and not o.open else None
            if items is not None and all(isinstance(st.obj(x), HObj) for x in items + (t.k[2],)):
                return t.k[2] in items      # objects compare by identity
        if is_tok(t):
            return True
        if t.tag == 'op' and t.k[1] == 'isinstance' and t.k[2].tag == 'call' and t.k[2].k[1].tag == 'ext' and t.k[3].tag == 'ext':
            if t.k[2].k[1].k[1].rpartition('.')[2] == t.k[3].k[1].rpartition('.')[2]:
                return True
        if t.tag == 'op' and t.k[1] == 'isinstance' and (is_tok(t.k[2]) or hook_name(t.k[2]) is not None):
            return False
        return None

    def may_raise(self, w, f, args, kw, n, fi, st):
        if self.hooks_raise and hook_name(f) is not None:
            return ('Any',)
        return ()

    def intercept(self, w, f, args, kw, n, fi, st):
        if f.tag == 'ext' and f.k[1] == 'numpy.dtype' and len(args) == 1:
            return [(args[0], st)]
        if f.tag == 'ext' and f.k[1] in ('warnings.warn', 'logging.warning'):
            return [(NONE, st)]
        return None


def hook_events(st, start=0):
    """[(hook name, args, kwargs, raised?)] in order"""
    out = []
    for e in st.trace[start:]:
        if e.kind == 'call' and hook_name(e.callee) is not None:
            out.append([hook_name(e.callee), e.args, dict(e.kwargs), False, e])
        elif e.kind == 'raised' and hook_name(e.callee) is not None:
            for h in reversed(out):
                if h[0] == hook_name(e.callee):
                    h[3] = True
                    break
    return [tuple(h) for h in out]


def trace_lines(st, start=0, limit=40):
    """human readable path for a report"""
    out = []
    for e in st.trace[start:]:
        if e.kind == 'call':
            out.append('%s call %s(%s)' % (e.loc(), e.data.get('name') or callee_name(e.callee),
                                           ', '.join(show(a) for a in e.args)))
        elif e.kind == 'raised':
            out.append('%s   ... which fails' % e.loc())
        elif e.kind == 'store':
            out.append('%s store %s.%s = %s' % (e.loc(), show(e.base), e.name, show(e.value)))
        elif e.kind == 'enter':
            out.append('%s enter %s' % (e.loc(), e.callee.qualname))
        elif e.kind == 'branch':
            out.append('%s branch %s is %s' % (e.loc(), show(e.term), e.value))
        elif e.kind == 'mutate':
            out.append('%s mutate %s (%s)' % (e.loc(), show(e.target), e.how))
        elif e.kind in ('delitem', 'delattr'):
            out.append('%s %s' % (e.loc(), e.kind))
    return out[-limit:]


def exc_name(e):
    return e.name


def exc_is(prog, e, names):
    """exception e is (a subclass of) one of the named classes"""
    if isinstance(e.cls, ClassInfo):
        have = set()
        for k in prog.mro(e.cls):
            have.add(k.name if isinstance(k, ClassInfo) else k.rpartition('.')[2])
        return bool(have & set(names))
    from .walker import BUILTIN_EXC_BASES
    have = {e.cls} | set(BUILTIN_EXC_BASES.get(e.cls, ()))
    return bool(have & set(names))


def fields_key(st, ref):
    o = st.obj(ref)
    return tuple(sorted((k, _key(st, v, 0)) for k, v in o.fields.items()))


def _key(st, v, depth):
    o = st.obj(v)
    if o is None or depth > 3:
        return show(v)
    if isinstance(o, HList):
        return 'L[%s]' % ','.join(_key(st, x, depth + 1) for x in o.items)
    if isinstance(o, HDict):
        return 'D{%s}' % ','.join('%s:%s' % (_key(st, a, depth + 1), _key(st, b, depth + 1)) for a, b in o.items)
    if isinstance(o, HObj):
        return 'O<%s>' % (o.cls.name if o.cls else '?')
    return '?'
