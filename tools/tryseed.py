#!/usr/bin/env python3
"""tryseed.py ID...: build, test, demonstrate and check seeded changes in a private copy of /repo."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(copy, script, timeout=900):
    r = subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind {copy} /repo && cd /repo && {script}'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


for sid in sys.argv[1:]:
    checks = None
    if ':' in sid:
        sid, checks = sid.split(':')
    d = os.path.join(HERE, 'seeded', sid)
    meta = json.load(open(d + '/meta.json'))
    pid = meta['property']
    checks = checks.split(',') if checks else [pid]
    tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    copy = tmp + '/repo'
    try:
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        shutil.copytree(d, tmp + '/demo')
        os.remove(tmp + '/demo/patch.diff')
        rc0, o0 = sh(copy, f'bash {tmp}/demo/demo.sh')
        subprocess.run(['git', '-C', copy, 'apply', d + '/patch.diff'], check=True)
        rt, ot = sh(copy, f'bash /opt/vp/test.sh {tmp}/out.json')
        res = json.load(open(tmp + '/out.json'))
        rc1, o1 = sh(copy, f'bash {tmp}/demo/demo.sh')
        print(f'== {sid}: demo clean rc={rc0}, tests {len(res["passed"])} passed {len(res["failed"])} failed, demo patched rc={rc1}', flush=True)
        if rc0 or len(res['passed']) != 6637 or not rc1:
            print((o0 if rc0 else '')[-1500:], ot[-1500:] if len(res['passed']) != 6637 else '', res['failed'][:5], '' if rc1 else o1[-800:])
        for c in checks:
            rv, ov = sh(copy, f'cd {HERE} && VERIF_SEED=1 VERIF_TIER=quick python3 run.py {c}')
            v = [x for x in ov.splitlines() if x.startswith('VIOLATION')]
            print(f'   check {c}: rc={rv} {v[0] if v else ""}  {"CAUGHT" if rv == 1 and v else "MISSED"}')
            if '-v' in os.environ.get('TRY', ''):
                print(ov[-3000:])
    finally:
        shutil.rmtree(tmp)
