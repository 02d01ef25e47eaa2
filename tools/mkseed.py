"""Development helper: write seeded/<id> from (file, old, new) edits and a demo program."""
import difflib
import json
import os

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
DEMO = '''#!/bin/bash
# run with cwd = the repository; exits nonzero when the property is broken
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python -W ignore "$HERE/demo.py"
'''


def seed(sid, prop, edits, demo, needs, breaks):
    d = os.path.join(SEEDED, sid)
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in edits:
        src = files.setdefault(f, open('/repo/' + f).read())
        assert src.count(old) == 1, (sid, f, src.count(old))
        files[f] = src.replace(old, new)
    out = ''
    for f, new in files.items():
        a, b = open('/repo/' + f).read().splitlines(True), new.splitlines(True)
        out += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(a, b, 'a/' + f, 'b/' + f))
    open(os.path.join(d, 'patch.diff'), 'w').write(out)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip())
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
