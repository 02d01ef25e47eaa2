"""Common driver: obligations, known findings, evidence, exit codes."""
import json
import os
import sys
import time
import traceback

from .model import AnalysisError, Program

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('SA_EVIDENCE') or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence')
KNOWN = os.path.join(HERE, 'known-findings.txt')

_prog = {}


def program(repo=None):
    if repo not in _prog:
        _prog[repo] = Program(repo)
    return _prog[repo]


def load_known():
    """lines:  finding: property=<id> rule=<rule> construct=<construct> :: text"""
    out = []
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as f:
        for line in f:
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            head, _, text = line[len('finding:'):].partition('::')
            d = {}
            for tok in head.split():
                k, _, v = tok.partition('=')
                d[k] = v
            d['text'] = text.strip()
            out.append(d)
    return out


class Check(object):
    def __init__(self, prop, tier, title, rule_text):
        self.prop = prop
        self.tier = tier
        self.title = title
        self.rule_text = rule_text
        self.t0 = time.time()
        self.obls = []            # (rule, construct, ok)
        self.viol = []
        self.funcs = set()
        self.counts = {}
        self.minimum = {}
        self.assumptions = []
        self.notes = []
        self.prog = program()

    # ---------------------------------------------------------- obligations
    def obl(self, rule, construct, ok, loc='', msg='', path=None):
        """one decided obligation; construct is a stable key (no line numbers)"""
        construct = construct.replace(' ', '_')
        self.obls.append((rule, construct, bool(ok)))
        if not ok:
            for v in self.viol:
                if v['rule'] == rule and v['construct'] == construct:
                    if len(v['also']) < 5 and loc != v['loc']:
                        v['also'].append('%s %s' % (loc, msg))
                    return False
            self.viol.append({'rule': rule, 'construct': construct, 'loc': loc, 'message': msg,
                              'path': [str(p) for p in (path or [])], 'also': []})
        return bool(ok)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, n):
        """minimum number of instances confirmed by reading the source"""
        self.minimum[name] = n

    def visit(self, fi):
        self.funcs.add((fi.module.relpath, fi.qualname))

    def visits(self, walker):
        for f in walker.visited:
            self.visit(f)

    # ---------------------------------------------------------------- finish
    def split(self):
        """violations that are not listed as known, and those that are"""
        known = [k for k in load_known() if k.get('property') == self.prop]
        new, listed = [], []
        for v in self.viol:
            hit = [k for k in known if k.get('rule') == v['rule'] and k.get('construct') == v['construct']]
            (listed if hit else new).append(v)
        return new, listed

    def finish(self):
        new, listed = self.split()
        for name, n in self.minimum.items():
            have = self.counts.get(name, 0)
            if have < n and not new:
                raise AnalysisError('%s: only %d instance(s) of "%s" found, at least %d expected; '
                                    'the rule no longer matches the code' % (self.prop, have, name, n))
        nob = len(self.obls)
        ndis = sum(1 for o in self.obls if o[2])
        rules = {}
        for r, c, ok in self.obls:
            d = rules.setdefault(r, [0, 0])
            d[0] += 1
            d[1] += ok
        print('%s [%s] %s' % (self.prop, self.tier, self.title))
        print('  obligations %d, discharged %d, functions analysed %d' % (nob, ndis, len(self.funcs)))
        for r in sorted(rules):
            print('  rule %-34s %4d obligations, %4d hold' % (r, rules[r][0], rules[r][1]))
        for k in sorted(self.counts):
            print('  %s: %d' % (k, self.counts[k]))
        for v in listed:
            print('KNOWN-FINDING: property=%s %s at %s: %s' % (self.prop, v['construct'], v['loc'], v['message']))
        replay = os.path.join(EVID, 'replay', '%s.json' % self.prop)
        if new:
            os.makedirs(os.path.dirname(replay), exist_ok=True)
            with open(replay, 'w') as f:
                json.dump(new, f, indent=1)
            if len(new) > 25:
                print('  %d violations, the first 25 follow (all in %s)' % (len(new), replay))
            for v in new[:25]:
                print('%s: [%s] %s: %s' % (v['loc'], v['rule'], v['construct'], v['message']))
                for p in v['path'][-12:]:
                    print('      %s' % p)
                for a in v['also']:
                    print('      also: %s' % a)
                print('VIOLATION property=%s replay=%s' % (self.prop, replay))
        elif os.path.exists(replay):
            os.remove(replay)
        cov = {
            'explanation': self.rule_text,
            'obligations': nob,
            'discharged': ndis,
            'functions_analysed': len(self.funcs),
            'modules_parsed': len(self.prog.modules),
            'classes_resolved': len(self.prog.classes),
            'rules': {r: {'obligations': a, 'hold': b} for r, (a, b) in sorted(rules.items())},
            'counts': self.counts,
            'functions': sorted('%s:%s' % f for f in self.funcs)[:400],
            'known_findings': [v['construct'] for v in listed],
        }
        ev = {
            'property': self.prop, 'tier': self.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other', 'coverage': cov,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(new),
        }
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, '%s.json' % self.prop), 'w') as f:
            json.dump(ev, f, indent=1)
        return 1 if new else 0


def main(argv):
    import importlib
    sys.setrecursionlimit(20000)
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = None
    try:
        mod = importlib.import_module('checks.%s' % prop.lower())
        c = Check(prop, tier, mod.TITLE, mod.RULES)
        c.assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
        mod.run(c)
        return c.finish()
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (prop, e))
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % prop)
    if c is not None and c.split()[0]:
        # the analysis stopped, but what it found before that stands
        return c.finish()
    return 2
