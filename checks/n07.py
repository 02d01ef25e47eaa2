"""Random numbers come from numpy's generator (or the one given) only."""
import ast

from sa import noderun as R
from sa.effects import AV, Effects, root
from sa.lint import Library, Typer, kind
from sa.model import ClassInfo

TITLE = 'Random results depend only on the state of the numpy generator'
RULES = ('For every public operation of every node class and every exported function of mdp and mdp.utils the external functions reached through the call graph are collected. None of them is another '
         'source of chance (random, secrets, uuid, os.urandom, clocks, id, hash, new generators), none changes the state of the global generator other than by drawing, and subclasses of OnlineNode draw '
         'from their own generator only; that generator is created only where none was given.')
ASSUMPTIONS = ['the iteration order of dictionaries and sets is not followed', 'functions given by the user are not followed']

STDLIB = ('random', 'secrets', 'uuid')
SOURCES = {'os.urandom', 'os.getpid', 'id', 'hash', 'time.time', 'time.clock', 'time.time_ns', 'time.perf_counter', 'time.monotonic', 'time.process_time', 'datetime.datetime.now',
           'datetime.now', 'numpy.random.default_rng', 'numpy.random.Generator', 'numpy.random.SystemRandom', 'tempfile.mktemp'}
STATE = {'numpy.random.seed', 'numpy.random.set_state', 'numpy.random.mtrand.seed'}
NEW = {'numpy.random.RandomState', 'numpy.random.mtrand.RandomState'}
# the state of the generator is only looked at
PASSIVE = {'numpy.random.get_state'}
PACKAGES = ('mdp', 'mdp.utils')
# presentation only: identifiers and frames of HTML pages, progress output, timing and temporary files
PRESENTATION = ('progressinfo', 'slideshow', 'HTMLSlideShow', 'show_image_slideshow', 'image_slideshow', 'image_slideshow_css', 'basic_css', 'slideshow_css', 'TemporaryDirectory', 'OrderedDict', 'test',
                'orthogonal_permutations', 'ProgressBar', 'ImageHTMLSlideShow', 'SectionHTMLSlideShow', 'SectionImageHTMLSlideShow', 'CrashRecoveryException')


def run(c):
    online = c.prog.find_class('mdp.signal_node_online.OnlineNode')
    for k in R.node_classes(c.prog):
        run_ = R.NodeRun(c.prog, k)
        eng = run_.run()
        judge(c, eng, k.name, online in c.prog.mro(k))
        for f in eng.funcs:
            c.visit(f)
        c.count('classes')
        for n in run_.entries:
            c.count('operations')
        c.count('call contexts', eng.calls)
        if online in c.prog.mro(k):
            handed_on(c, k, online)
    seen = set()
    for pk in PACKAGES:
        m = c.prog.modules.get(pk)
        for nm in sorted(m.symbols):
            r = c.prog.resolve_in(m, nm)
            if r[0] != 'def' or r[1] in seen or nm in PRESENTATION or '.test' in r[1].module.name:
                continue
            seen.add(r[1])
            eng = Effects(c.prog, {n: R.contract for n in R.NODE_CONTRACT})
            eng.entry = nm
            args = [AV(frozenset([('P', p[0])])) for p in r[1].params() if p[3] == 'pos']
            eng.call(r[1], None, args, {}, r[1].node, None, None)
            judge(c, eng, nm, False)
            for f in eng.funcs:
                c.visit(f)
            c.count('functions')
    lib = Library(c.prog)
    for m in c.prog.modules.values():
        if '.test' not in m.name:
            at_import(c, lib, m)
    c.need('classes', 60)
    c.need('functions', 20)
    c.need('draws', 10)


def at_import(c, lib, m):
    """code that runs when the module is imported: no generator is created or seeded"""
    ty = Typer(lib, None, m)
    bad = False

    def rec(n):
        nonlocal bad
        if isinstance(n, ast.FunctionDef):
            return
        if isinstance(n, ast.Call):
            t = ty.of(n.func)
            if kind(t) == 'ext' and (t[1] in NEW | STATE | SOURCES or t[1].split('.')[0] in STDLIB):
                bad = True
                c.obl('source', '%s:%s' % (m.relpath, t[1]), False, '%s:%d' % (m.relpath, n.lineno), 'the module calls %s when it is imported' % t[1])
        for ch in ast.iter_child_nodes(n):
            rec(ch)
    rec(m.tree)
    c.count('modules')
    if not bad:
        c.obl('source', m.relpath, True)


def judge(c, eng, who, online):
    bad = False
    for path, fi, e in sorted(((p, f, n) for p, places in eng.extcalls.items() for f, n in places), key=lambda t: (t[0], t[1].qualname, t[2].lineno)):
        root = path.split('.')[0]
        why = None
        if root in STDLIB or path in SOURCES:
            why = 'uses %s, which the numpy generator does not control' % path
        elif path in STATE:
            why = 'changes the state of the generator with %s' % path
        elif path in NEW:
            if not (online and creates_own(fi)):
                why = 'creates another generator with %s' % path
        elif path.startswith('numpy.random.') and path not in PASSIVE:
            c.count('draws')
            if online:
                why = 'draws from the global generator with %s instead of its own' % path
        if why:
            bad = True
            c.obl('source', '%s:%s' % (fi.qualname, path), False, fi.loc(e), '%s %s in %s' % (who, why, fi.qualname))
    if not bad:
        c.obl('source', who, True)


def creates_own(fi):
    """the function creates the generator of the node under the condition that it has none"""
    for n in ast.walk(fi.node):
        if isinstance(n, ast.If) and 'rng' in ast.unparse(n.test):
            return True
    return False


CONTAINERS = ('nodes', 'node', 'flow')


def handed_on(c, k, online):
    """the generator given to the constructor or the setter reaches the node and every online node inside"""
    init = c.prog.method(k, '__init__')
    params = [p[0] for p in init.params()]
    for entries, src in ((['__init__'], ('P', 'numx_rng of __init__')), (['__init__', 'set_numx_rng'], ('P', 'rng of set_numx_rng'))):
        if entries == ['__init__'] and 'numx_rng' not in params:
            continue
        eng = R.NodeRun(c.prog, k, entries).run()
        have = {}
        for (l, f), v in eng.heap.items():
            if f in ('numx_rng', '_numx_rng') and src in v.locs:
                have[l] = True
        inner = sorted({l for l, f in eng.heap if l[0] == 'O' and isinstance(l[2], ClassInfo) and online in c.prog.mro(l[2])}, key=str)
        for l in inner:
            c.count('generators handed on')
            c.obl('handed-on', '%s.%s:%s' % (k.name, entries[-1], l[1].partition('@')[0]), l in have, init.loc(),
                  'the generator given to %s.%s does not reach %s' % (k.name, entries[-1], 'the node' if l[1] == 'self' else 'its ' + l[1].partition('@')[0]))
        held = [p for p in params if p in CONTAINERS]
        if held:
            c.count('generators handed on')
            got = any(root(l)[1] == '%s of __init__' % p for l in have for p in held if root(l)[0] == 'P')
            c.obl('handed-on', '%s.%s:%s' % (k.name, entries[-1], held[0]), got, init.loc(), 'the generator given to %s.%s does not reach the nodes it contains' % (k.name, entries[-1]))
