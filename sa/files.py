"""File handles: the typestate of every file the toolkit opens."""
import ast

from .model import AnalysisError, ClassInfo
from .walker import (Attr, Call, ClassV, Const, Exc, Ext, FALSE, HObj, HList, NONE, Policy, RAISE, RETURN, Sym, TRUE, Walker,
                     callee_name, cval, is_const, show)

OPENERS = {'open', 'fdopen', 'NamedTemporaryFile', 'TemporaryFile'}
OPEN = {'open': 1, 'io.open': 1, 'os.fdopen': 1, 'codecs.open': 1, 'tempfile.NamedTemporaryFile': 0, 'tempfile.TemporaryFile': 0}
DUMP = ('pickle.dump', '_pickle.dump', 'cPickle.dump')
DUMPS = ('pickle.dumps', '_pickle.dumps', 'cPickle.dumps')
LOAD = ('pickle.load', '_pickle.load', 'cPickle.load')
HARMLESS = ('print', 'warnings.warn', 'len', 'repr', 'str', 'flush', 'isinstance', 'type', 'bool')


def is_file(v):
    return v.tag == 'sym' and str(v.k[1]).startswith('file#')


class FilePolicy(Policy):
    """the environment of a function that opens files: every file operation and every unknown call may fail"""
    max_paths = 20000
    while_bound = 1
    loop_bound = 1

    def __init__(self, follow=(), module=None):
        self.follow = {f.node for f in follow}
        self.module = module             # scenarios: the functions of this module are followed
        self.n = 0

    def carries(self, v, st, depth=0):
        if is_file(v):
            return True
        o = st.obj(v)
        return isinstance(o, HObj) and depth < 3 and any(self.carries(x, st, depth + 1) for x in o.fields.values() if hasattr(x, 'tag'))

    def opaque(self, w, fi, selfv, st):
        if self.module is not None and fi.module is self.module:
            return False
        if fi.node in self.follow or fi.name == '__init__' or fi.is_property:
            return False
        return not (selfv is not None and self.carries(selfv, st) and (w.prog.method(st.obj(selfv).cls, 'write') if st.obj(selfv) is not None else True))

    def decide(self, w, t, st):
        if is_file(t):
            return True
        if t.tag == 'op' and t.k[1] in ('is', '==') and len(t.k) == 4:
            a, b = t.k[2], t.k[3]
            for x, y in ((a, b), (b, a)):
                if (is_file(x) or str(x.k[1]).startswith('@')) and x.tag == 'sym' and is_const(y):
                    return False
        return None

    def may_raise(self, w, f, args, kw, n, fi, st):
        return () if f.tag == 'ext' and f.k[1] in HARMLESS else ('Exception',)

    def intercept(self, w, f, args, kw, n, fi, st):
        kw = kw or {}
        if f.tag == 'func' and any(self.carries(a, st) for a in list(args) + list(kw.values())):
            return w.call_func(f.k[1], f.k[2], f.k[3], args, kw, n, fi, st)
        if f.tag == 'ext':
            name = f.k[1]
            if name in OPEN:
                p = OPEN[name]
                mode = kw.get('mode', args[p] if len(args) > p else Const('r' if p else 'w+b'))
                target = args[0] if p and args else kw.get('file', kw.get('filename', NONE))
                return self.event('open', st, n, fi, target=target, mode=mode)
            if name in DUMP or name in LOAD:
                a = list(args)
                if name in LOAD:
                    h = a[0] if a else kw.get('file')
                    return self.event('load', st, n, fi, handle=h)
                h = a[1] if len(a) > 1 else kw.get('file')
                return self.event('dump', st, n, fi, handle=h, obj=a[0] if a else kw.get('obj'), proto=a[2] if len(a) > 2 else kw.get('protocol'))
            if name == 'print' and is_file(kw.get('file', NONE)):
                return self.event('write', st, n, fi, handle=kw['file'], what=Const('text'))
        if f.tag == 'attr':
            b, m = f.k[1], f.k[2]
            if b.tag == 'call' and b.k[1].tag == 'ext' and b.k[1].k[1].endswith('pickle.Pickler') and m == 'dump':
                k = dict(b.k[3])
                return self.event('dump', st, n, fi, handle=b.k[2][0] if b.k[2] else k.get('file'), obj=args[0],
                                  proto=b.k[2][1] if len(b.k[2]) > 1 else k.get('protocol'))
            if is_file(b):
                if m == '__enter__':
                    return [(b, st)]
                if m in ('close', '__exit__'):
                    s = st.copy()
                    s.notes[('closed', b)] = True
                    s.add_event('close', n, fi, handle=b)
                    return [(NONE if m == 'close' else FALSE, s)]
                if m in ('write', 'writelines'):
                    return self.event('write', st, n, fi, handle=b, what=args[0] if args else NONE)
                if m in ('flush', 'seek', 'tell', 'fileno', 'truncate'):
                    return [(NONE, st)]
                if m in ('read', 'readline', 'readlines'):
                    return self.event('read', st, n, fi, handle=b)
        return None

    def event(self, kind, st, n, fi, **data):
        s = st.copy()
        out = []
        if kind == 'open':
            self.n += 1
            h = Sym('file#%d' % self.n)
            s.notes[('mode', h)] = data['mode']
            s.add_event('fopen', n, fi, handle=h, **data)
            out.append((h, s))
        else:
            out.append((Call(Ext('file.' + kind), [], {}, self.n), s))
            s.add_event('f' + kind, n, fi, closed=bool(data['handle'] is not None and st.notes.get(('closed', data['handle']))), **data)
        s2 = st.copy()
        s2.add_event('ffail', n, fi, op=kind)
        out.append((Exc('OSError', node=n, fi=fi, origin=Ext('file.' + kind)), s2))
        return out

    def load_field(self, w, ref, obj, name, st):
        # a wrapper that forwards what it does not define
        g = w.prog.method(obj.cls, '__getattr__') if obj.cls is not None else None
        if g is not None and not name.startswith('__'):
            for v, s in w.call_func(g, None, ref, [Const(name)], {}, None, None, st.copy()):
                if not isinstance(v, Exc) and v.tag == 'attr' and is_file(v.k[1]):
                    return v
        return None


def called_names(fi):
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name):
                yield f.id, x
            elif isinstance(f, ast.Attribute):
                base = f.value.id if isinstance(f.value, ast.Name) else None
                if f.attr == 'open' and base not in ('io', 'codecs', 'builtins'):
                    continue
                yield f.attr, x


def opening_functions(prog):
    if not hasattr(prog, '_openers'):
        prog._openers = _opening(prog)
    return list(prog._openers)


def _opening(prog):
    return [fi for fi in prog.all_functions() if '.test' not in fi.module.name and any(n in OPENERS for n, _ in called_names(fi))]


def textual(v):
    """True: certainly text; False: certainly bytes"""
    if v is None:
        return None
    if is_const(v):
        return True if v.k[1] == 'str' else False if v.k[1] == 'bytes' else None
    if v.tag == 'op' and v.k[1] in ('+', '%', 'fstr', 'join', 'format'):
        r = {textual(x) for x in v.k[2:] if hasattr(x, 'tag')}
        if v.k[1] == '%':
            return textual(v.k[2])
        return True if True in r else False if False in r else None
    if v.tag == 'call':
        f = v.k[1]
        if f.tag == 'ext' and f.k[1] in DUMPS:
            return False
        if f.tag == 'ext' and f.k[1] in ('str', 'repr'):
            return True
        if f.tag == 'attr' and f.k[2] in ('join', 'format', 'replace'):
            return textual(f.k[1])
        if f.tag == 'attr' and f.k[2] == 'encode':
            return False
    return None


def mode_of(s, h):
    m = s.notes.get(('mode', h))
    if m is None or not is_const(m) or not isinstance(cval(m), str):
        return None
    return cval(m)


def pickled(what):
    """the pickled object when the written value is a pickle string"""
    if what is not None and what.tag == 'call' and what.k[1].tag == 'ext' and what.k[1].k[1] in DUMPS:
        k = dict(what.k[3])
        return what.k[2][0] if what.k[2] else k.get('obj'), what.k[2][1] if len(what.k[2]) > 1 else k.get('protocol')
    return None


def writes(s):
    """pickles written on a path: (event, handle, object, protocol)"""
    out = []
    for e in s.trace:
        if e.kind == 'fdump':
            out.append((e, e.handle, e.obj, e.proto))
        elif e.kind == 'fwrite':
            p = pickled(e.what)
            if p is not None:
                out.append((e, e.handle, p[0], p[1]))
    return out
