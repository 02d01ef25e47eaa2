"""Saved objects and written files are complete."""
from sa.files import FilePolicy, HARMLESS, OPENERS, is_file, mode_of, opening_functions, pickled, textual, writes
from sa.model import AnalysisError
from sa.proto import Tok
from sa.walker import Attr, Const, HObj, NONE, RAISE, RETURN, Sym, Tup, Walker, cval, is_const, show

TITLE = 'Saved objects are complete pickles and every written file is closed in time'
RULES = ('Typestate of every file handle on every path of every function that opens one (each file operation and each other call may '
         'fail), and the value flow of every save and copy operation: which object is pickled, with which protocol, into which file.')
ASSUMPTIONS = ['open, pickle and deepcopy behave as documented']


def run(c):
    follow = opening_functions(c.prog)
    new = follow
    for rnd in range(3):
        more = set()
        for fi in new:
            handle_function(c, fi, follow, more)
        new = sorted(callers(c.prog, more) - set(follow), key=lambda f: f.qualname)
        follow = follow + new
    saves(c)
    copies(c)
    checkpoint(c)
    crash_dump(c)
    c.need('functions that open files', 12)
    c.need('save scenarios', 12)


def callers(prog, fs):
    from sa.files import called_names
    names = {f.name for f in fs}
    return {fi for fi in prog.all_functions() if '.test' not in fi.module.name and any(n in names for n, _ in called_names(fi))}


def symbolic_args(fi):
    args, kw = [], {}
    ps = fi.params()
    if fi.cls is not None and not fi.is_static:
        ps = ps[1:]
    for n, hasd, d, kind in ps:
        if kind == 'pos':
            args.append(Sym(n))
        elif kind == 'kwonly':
            kw[n] = Sym(n)
    return args, kw


def handle_function(c, fi, follow, more):
    prog = c.prog
    pol = FilePolicy(follow)
    w = Walker(prog, pol)
    st = w.new_state()
    selfv = None
    states = [st]
    if fi.cls is not None and not fi.is_static:
        selfv = w.new_obj(st, fi.cls, 'self')
        init = prog.method(fi.cls, '__init__')
        if init is not None and fi.name != '__init__' and any(f in follow for f in (fi,)):
            a, k = symbolic_args(init)
            try:
                w0 = Walker(prog, pol)
                rs = [s for kd, v, s in w0.run_func(st.copy(), init, a, k, selfv) if kd == RETURN]
                if 0 < len(rs) <= 40:
                    states = rs
                    for s in rs:           # what is not there yet at first may be there later
                        o = s.mut(selfv)
                        for n in [n for n, v in o.fields.items() if hasattr(v, 'tag') and is_const(v) and cval(v) is None]:
                            del o.fields[n]
            except AnalysisError:
                pass
    args, kw = symbolic_args(fi)
    if fi.parent is not None and fi.cls is None:
        return
    c.count('functions that open files')
    seen = set()
    for s0 in states:
        for kind, val, s in w.run_func(s0, fi, args, kw, selfv):
            c.count('paths')
            judge(c, fi, pol, kind, val, s, more, seen)
    c.visits(w)


def judge(c, fi, pol, kind, val, s, more, seen):
    lab = fi.qualname
    opened = [e for e in s.trace if e.kind == 'fopen' and e.fi is not None]
    nocm = kind == RAISE and hasattr(val.origin, 'tag') and val.origin.tag == 'ext' and val.origin.k[1].startswith('no context manager: ')
    c.obl('context-manager', lab, not nocm, val.fi.loc(val.node) if nocm else '', '%s is no context manager' % (val.origin.k[1][20:] if nocm else ''))
    ws = writes(s)
    pick = {h for e, h, o, p in ws}
    kept = set()
    for i, o in s.heap.items():
        if isinstance(o, HObj) and o.name == 'self':
            kept |= {v for v in o.fields.values() if hasattr(v, 'tag') and is_file(v)}
    for e in opened:
        h = e.handle
        mode = mode_of(s, h)
        escapes = h in kept or (kind == RETURN and pol.carries(val, s)) or (kind == RETURN and val.tag == 'tup' and h in val.k[1:])
        if escapes and kind == RETURN:
            more.add(fi)
            continue
        closed = s.notes.get(('closed', h), False)
        path = ['%s %s' % (x.loc(), x.kind) for x in s.trace if x.kind[0] == 'f' and x.fi is not None]
        if kind == RETURN:
            c.obl('closed', lab, closed, e.loc(), '%s returns with %s still open' % (fi.name, show(e.target)), path)
        elif h in pick or any(x.kind == 'ffail' and x.op == 'dump' for x in s.trace):
            c.obl('closed', lab, closed, e.loc(), '%s fails and leaves %s open' % (fi.name, show(e.target)), path)
        if h in pick and kind == RETURN:
            n = sum(1 for x in ws if x[1] == h)
            c.obl('one-pickle', lab, n == 1, e.loc(), '%d pickles are written to one file' % n, path)
    for e in s.trace:
        if e in seen:
            continue
        seen.add(e)
        if e.kind in ('fwrite', 'fdump', 'fload', 'fread') and e.handle is not None and is_file(e.handle):
            mode = mode_of(s, e.handle)
            c.obl('open-when-used', lab, not e.closed, e.loc(), 'the file is used after it was closed')
            if mode is None:
                continue
            want = {'fdump': False, 'fload': False, 'fread': None}.get(e.kind, textual(getattr(e, 'what', NONE)) if e.kind == 'fwrite' else None)
            if e.kind in ('fwrite', 'fdump'):
                c.obl('mode', lab, mode[0] in 'wx' or '+' in mode or (mode[0] == 'a' and e.kind == 'fwrite' and pickled(e.what) is None), e.loc(),
                      'the file is opened with mode %r and then written' % mode)
                if e.kind == 'fdump' or pickled(e.what) is not None:
                    c.obl('mode', lab, mode[0] in 'wx', e.loc(), 'a pickle is written to a file opened with mode %r' % mode)
            else:
                c.obl('mode', lab, mode[0] == 'r' or '+' in mode, e.loc(), 'the file is opened with mode %r and then read' % mode)
            if want is not None:
                c.obl('mode', lab, ('b' in mode) == (not want), e.loc(), '%s is %s a file opened with mode %r'
                      % ('text' if want else 'a pickle', 'read from' if e.kind == 'fload' else 'written to', mode))
    # nothing that can fail runs between truncating the file and pickling into it
    for e, h, o, p in ws:
        if is_const(o, None) and cval(o) is None:
            c.obl('object', lab, False, e.loc(), 'None is pickled')
    tr = list(s.trace)
    for i, e in enumerate(tr):
        if e.kind == 'fopen' and e.handle in pick:
            j = next(k for k, x in enumerate(tr) if x.kind in ('fdump', 'fwrite') and x.handle == e.handle)
            bad = [x for x in tr[i + 1:j] if x.kind in ('call', 'raised') and x.name not in HARMLESS and not str(x.name).startswith(('pickle', 'file.'))]
            c.obl('late-open', lab, not bad, e.loc(), 'the file is overwritten before %s, which may fail, has run' % (bad[0].name if bad else ''))


# ------------------------------------------------------------------ semantics
def family(prog, name):
    out, seen = [], set()
    for base in ('mdp.signal_node.Node', 'mdp.linear_flows.Flow'):
        b = prog.find_class(base)
        for k in [b] + sorted(prog.subclasses(b), key=lambda k: k.qualname):
            if k.parent_func is not None or '.test' in k.module.name or k.binding:
                continue
            f = prog.method(k, name)
            if f is not None and (k is b or name in k.methods) and k not in seen:
                seen.add(k)
                out.append(k)
    return out


PROTOS = (None, Const(-1), Const(0), Const(2), Tok('protocol'))


def saves(c):
    prog = c.prog
    for k in family(prog, 'save'):
        loc0 = prog.method(k, 'save').loc()
        for fname in (NONE, Tok('filename')):
            for p in PROTOS:
                pol = FilePolicy(opening_functions(prog), k.module)
                w = Walker(prog, pol)
                st = w.new_state()
                me = w.new_obj(st, k, 'self', {'anything': Tok('state')})
                before = dict(st.obj(me).fields)
                lab = '%s.save(%s, %s)' % (k.name, 'None' if fname is NONE else 'filename', 'default' if p is None else show(p))
                c.count('save scenarios')
                done = 0
                for kind, val, s in w.run_method(st, me, 'save', [fname] + ([] if p is None else [p])):
                    ws = writes(s)
                    proto = p if p is not None else Const(-1)
                    loc = ws[0][0].loc() if ws else loc0
                    c.obl('unchanged', lab, s.obj(me).fields == before, loc, 'saving changes the object')
                    if kind == RAISE:
                        cause = any(x.kind in ('ffail', 'raised') for x in s.trace)
                        c.obl('saves', lab, cause, loc, 'saving fails with %s' % val.name)
                        continue
                    done += 1
                    if fname is NONE:
                        pk = pickled(val)
                        c.obl('string', lab, pk is not None and pk[0] == me, loc, 'save(None) returns %s, not the pickle of the object' % show(val))
                        if pk is not None and p is not None:
                            c.obl('protocol', lab, pk[1] == p, loc, 'the protocol used is %s' % (show(pk[1]) if pk[1] is not None else 'the default'))
                        c.obl('no-file', lab, not [e for e in s.trace if e.kind == 'fopen'], loc, 'save(None) opens a file')
                        continue
                    c.obl('failure-reported', lab, not any(x.kind in ('ffail', 'raised') for x in s.trace), loc, 'a failing save is not reported')
                    files = [e for e in s.trace if e.kind == 'fopen']
                    c.obl('target', lab, len(files) == 1 and files[0].target == fname, loc, 'the object is saved to %s' % [show(e.target) for e in files])
                    c.obl('object', lab, len(ws) == 1 and ws[0][2] == me and ws[0][1] == files[0].handle if files else False, loc,
                          'what is written is %s' % [show(x[2]) for x in ws])
                    if ws and p is not None:
                        c.obl('protocol', lab, ws[0][3] == p, loc, 'the protocol used is %s' % (show(ws[0][3]) if ws[0][3] is not None else 'the default'))
                    for h in [e for e in files]:
                        c.obl('closed', lab, s.notes.get(('closed', h.handle), False), loc, 'save returns with the file open')
                        m = mode_of(s, h.handle)
                        c.obl('mode', lab, m is not None and m[0] in 'wx' and 'b' in m, loc, 'the pickle is written to a file opened with mode %r' % m)
                c.obl('saves', lab, done > 0, loc0, 'no path saves the object')
                c.visits(w)


def copies(c):
    prog = c.prog
    for k in family(prog, 'copy'):
        if k.qualname.endswith('.FlowNode'):
            continue                       # H02
        for p in (None, Const(2)):
            pol = FilePolicy((), k.module)
            w = Walker(prog, pol)
            st = w.new_state()
            me = w.new_obj(st, k, 'self', {'anything': Tok('state')})
            before = dict(st.obj(me).fields)
            lab = '%s.copy' % k.name
            c.count('copy scenarios')
            done = 0
            for kind, val, s in w.run_method(st, me, 'copy', [] if p is None else [p]):
                loc = prog.method(k, 'copy').loc()
                c.obl('unchanged', lab, s.obj(me).fields == before, loc, 'copying changes the object')
                if kind == RAISE:
                    c.obl('copies', lab, any(x.kind in ('ffail', 'raised') for x in s.trace), loc, 'copying fails with %s' % val.name)
                    continue
                done += 1
                c.obl('deep-copy', lab, deep(val, me), loc, 'copy returns %s, not a deep copy of the object' % show(val))
            c.obl('copies', lab, done > 0, '', 'no path copies the object')
            c.visits(w)


def deep(v, me):
    if v.tag != 'call' or v.k[1].tag != 'ext' or not v.k[2]:
        return False
    if v.k[1].k[1] == 'copy.deepcopy':
        return v.k[2][0] == me
    if v.k[1].k[1].endswith('pickle.loads'):
        pk = pickled(v.k[2][0])
        return pk is not None and pk[0] == me
    return False


def checkpoint(c):
    prog = c.prog
    ci = prog.find_class('mdp.linear_flows.CheckpointSaveFunction')
    for stop in (None, Const(0), Const(1)):
        for binary in (None, Const(0)):
            for proto in (None, Const(0), Const(2)):
                pol = FilePolicy(opening_functions(prog), ci.module)
                w = Walker(prog, pol)
                st = w.new_state()
                me = w.new_obj(st, ci, 'self')
                kw = {k: v for k, v in (('stop_training', stop), ('binary', binary), ('protocol', proto)) if v is not None}
                lab = 'CheckpointSaveFunction(%s)' % ','.join('%s=%s' % (k, show(v)) for k, v in sorted(kw.items()))
                for k0, v0, s0 in w.run_func(st, prog.method(ci, '__init__'), [Tok('filename')], kw, me):
                    if k0 != RETURN:
                        c.obl('saves', lab, False, prog.method(ci, '__init__').loc(), 'the constructor fails with %s' % v0.name)
                        continue
                    for kind, val, s in w.run_method(s0, me, '__call__', [Tok('node')]):
                        c.count('checkpoint scenarios')
                        ws = writes(s)
                        loc = ws[0][0].loc() if ws else prog.method(ci, '__call__').loc()
                        tr = [('stop' if e.kind == 'call' and e.callee == Attr(Tok('node'), 'stop_training') else e.kind, e) for e in s.trace]
                        stops = [i for i, (t, e) in enumerate(tr) if t == 'stop']
                        opens = [i for i, (t, e) in enumerate(tr) if t == 'fopen']
                        dumps = [i for i, (t, e) in enumerate(tr) if t in ('fdump', 'fwrite')]
                        failed = any(x.kind in ('ffail', 'raised') for x in s.trace)
                        if kind == RAISE:
                            c.obl('saves', lab, failed, loc, 'the checkpoint fails with %s' % val.name)
                            if any(x.kind == 'raised' for x in s.trace):
                                c.obl('late-open', lab, not opens, loc, 'the file is overwritten although the training could not be finished')
                            continue
                        c.obl('failure-reported', lab, not failed, loc, 'a failing checkpoint is not reported')
                        c.obl('stop', lab, len(stops) == (1 if stop is not None and cval(stop) else 0) and (not stops or not dumps or stops[0] < dumps[0]), loc,
                              'stop_training is called %d times' % len(stops))
                        c.obl('target', lab, len(opens) == 1 and tr[opens[0]][1].target == Tok('filename'), loc, 'the file opened is not the given one')
                        c.obl('object', lab, len(ws) == 1 and ws[0][2] == Tok('node'), loc, 'what is written is %s' % [show(x[2]) for x in ws])
                        c.obl('protocol', lab, bool(ws) and (ws[0][3] == (proto if proto is not None else Const(2))), loc, 'the protocol is not the requested one')
                        for i in opens:
                            h = tr[i][1].handle
                            m = mode_of(s, h)
                            c.obl('mode', lab, m is not None and m[0] in 'wx' and 'b' in m, loc, 'the pickle is written to a file opened with mode %r' % m)
                            c.obl('closed', lab, s.notes.get(('closed', h), False), loc, 'the checkpoint returns with the file open')
                        c.obl('no-result', lab, is_const(val) and not cval(val), loc, 'the checkpoint returns %s, which the flow would take over' % show(val))
                c.visits(w)


def crash_dump(c):
    prog = c.prog
    ci = prog.find_class('mdp.linear_flows.CrashRecoveryException')
    for fname in (NONE, Tok('filename')):
        pol = FilePolicy(opening_functions(prog), ci.module)
        w = Walker(prog, pol)
        st = w.new_state()
        me = w.new_obj(st, ci, 'self', {'crashing_obj': Tok('flow'), 'parent_exception': Tok('cause')})
        lab = 'CrashRecoveryException.dump(%s)' % ('None' if fname is NONE else 'filename')
        done = 0
        for kind, val, s in w.run_method(st, me, 'dump', [fname]):
            c.count('checkpoint scenarios')
            if kind == RAISE:
                c.obl('saves', lab, any(x.kind in ('ffail', 'raised') for x in s.trace), prog.method(ci, 'dump').loc(), 'the dump fails with %s' % val.name)
                continue
            done += 1
            ws = writes(s)
            loc = ws[0][0].loc() if ws else prog.method(ci, 'dump').loc()
            c.obl('object', lab, len(ws) == 1 and ws[0][2] == Tok('flow'), loc, 'what is dumped is %s' % [show(x[2]) for x in ws])
            if fname is not NONE:
                c.obl('target', lab, val == fname, loc, 'the file name returned is %s' % show(val))
            else:
                c.obl('target', lab, val.tag == 'item' and 'mkstemp' in show(val) or not is_const(val), loc, 'no file name is returned')
        c.obl('saves', lab, done > 0, '', 'no path writes the dump')
        c.visits(w)
