#!/usr/bin/env python3
"""Development tool for planted bugs (not used by any check).

seed.py new ID PROPERTY   : build seeded/ID from a working copy: /tmp/seedwork/ID/repo is copied from /repo; edit there first
seed.py verify ID...      : confirm demo clean/patched, stable tests, and run the property's check against the patched copy
seed.py catch ID...       : only run the property's check against the patched copy
"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
WORK = '/tmp/seedwork'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def copy(name):
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh('git -C /repo archive HEAD | tar x -C %s' % d)
    return d


def demo(sid, repo):
    return sh('bash %s/demo.sh' % os.path.join(SEEDED, sid), cwd=repo, env=dict(ENV, PYTHONPATH=repo), timeout=300)


def tests(repo):
    rep = repo + '.rep'
    os.makedirs(rep, exist_ok=True)
    env = dict(ENV, PYTHONPATH=repo)
    for p in ('mdp', 'bimdp'):
        sh('/opt/venv/bin/python -m pytest -q -W ignore -p no:cacheprovider -p no:xdist --seed=725021957 --timeout=120 '
           '--continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s/%s.xml %s' % (rep, p, p), cwd=repo, env=env)
    out = repo + '.json'
    sh('/opt/venv/bin/python /opt/vp/results.py %s "junit:%s/*.xml"' % (out, rep))
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    got = set(json.load(open(out))['passed'])
    return sorted(base - got)


def check(sid, repo, prop):
    env = dict(ENV, SA_REPO=repo, SA_EVIDENCE=repo + '.ev')
    rc, out = sh('python3 check.py %s quick' % prop, cwd=os.path.dirname(SEEDED), env=env)
    viol = [l for l in out.splitlines() if re.match(r'\S+:\d+: \[', l) or 'Error' in l]
    return rc, viol


def verify(sid, full=True):
    d = os.path.join(SEEDED, sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    repo = copy(sid)
    msgs = []
    if full:
        rc, out = demo(sid, repo)
        if rc:
            msgs.append('DEMO FAILS ON CLEAN: ' + out[-300:])
    rc, out = sh('git apply --directory=%s --unsafe-paths %s/patch.diff' % (repo, d), cwd='/')
    if rc:
        rc, out = sh('patch -p1 < %s/patch.diff' % d, cwd=repo)
        if rc:
            return sid, ['PATCH DOES NOT APPLY ' + out]
    if full:
        rc, out = demo(sid, repo)
        if not rc:
            msgs.append('DEMO PASSES WITH PATCH')
        missing = tests(repo)
        if missing:
            msgs.append('TESTS BROKEN: %s' % missing[:5])
    rc, viol = check(sid, repo, meta['property'])
    msgs.append('%s rc=%d %s' % ('CAUGHT' if rc == 1 else 'MISSED', rc, viol[0][:200] if viol else ''))
    shutil.rmtree(repo, ignore_errors=True)
    shutil.rmtree(repo + '.rep', ignore_errors=True)
    return sid, msgs


def new(sid, prop, needs, breaks):
    """make the patch from the edited working copy"""
    repo = os.path.join(WORK, 'edit')
    d = os.path.join(SEEDED, sid)
    os.makedirs(d, exist_ok=True)
    rc, out = sh('git diff --no-index --no-prefix %s.orig %s' % (repo, repo), cwd='/')
    out = out.replace(repo.lstrip('/') + '.orig/', 'a/').replace(repo.lstrip('/') + '/', 'b/').replace('a/' + 'tmp', 'a/tmp')
    open(os.path.join(d, 'patch.diff'), 'w').write(out)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(8) as ex:
        for sid, msgs in ex.map(lambda s: verify(s, sys.argv[1] == 'verify'), ids):
            print(sid, '|', ' ; '.join(msgs))
            sys.stdout.flush()
