#!/usr/bin/env python3
"""mkseed.py SPEC.py : write seeded/<id>/ from specs (used while planting; nothing reads it at check time).

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo=python source)]"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 250 python -W ignore "$here/demo.py"
'''
tmp = tempfile.mkdtemp(prefix='mkseed-', dir='/tmp')
wt = tmp + '/wt'
subprocess.run(['git', 'clone', '-q', '--shared', '/repo', wt], check=True)
try:
    for s in runpy.run_path(sys.argv[1])['SEEDS']:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
            continue
        subprocess.run(['git', '-C', wt, 'checkout', '-q', '--', '.'], check=True)
        for f, old, new in s['edits']:
            p = os.path.join(wt, f)
            x = open(p).read()
            assert x.count(old) == 1, (s['id'], f, x.count(old))
            open(p, 'w').write(x.replace(old, new))
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(['git', '-C', wt, 'diff'], stdout=subprocess.PIPE, check=True).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print(s['id'])
finally:
    shutil.rmtree(tmp)
