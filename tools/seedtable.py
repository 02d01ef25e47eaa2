#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (development tool). All listed bugs were run with tools/seed.py."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | needs | breaks | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(d), m['needs'], m['what_it_breaks'], m.get('caught_by', m['property'])))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda k: '<!-- seeds -->\n%s\n<!-- /seeds -->' % '\n'.join(rows), s, flags=re.S)
open(p, 'w').write(s)
