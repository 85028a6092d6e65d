#!/usr/bin/env python3
"""mutate.py OUT.jsonl SEED COUNT [FILE-REGEX] : random small changes to the code that survive the existing tests, and whether the
checks see them. A development tool for finding blind spots; nothing reads its output at check time."""
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = 'P02 P03 P04 P05 P06 P07 P08 P09 P19 P11 P10 P01 P21'.split()
RELEVANT = [
    (r'generator\.pyx', 'P14 P15 P16 P17 P18 P19 P10 P08 P05 P22 P01 P21'),
    (r'broadcasting', 'P22 P14 P16 P10 P01 P21'), (r'wrapper', 'P20 P08 P21 P01'), (r'entropy|splitmix', 'P13 P04 P03 P21 P01'),
    (r'_seed_sequence', 'P23 P21 P01'), (r'rdrand', 'P24 P21 P01'), (r'squares', 'P12'), (r'sfc', 'P12'), (r'_pickle|_register', 'P05 P01 P21'),
    (r'distributions', 'P14 P15 P18 P20 P22'), (r'common\.pyx', 'P04 P08 P06 P05 P19 P22 P20'),
]
SKIP = re.compile(r'neon|orig|test|dSFMT-test|bounded_integers|mtrand|main\.c|benchmark|legacy|_version|features/|/examples/|params|_pickle_old|setup|typing|conftest|generate')


def sh(copy, script, timeout=900):
    r = subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind {copy} /repo && cd /repo && {script}'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def code_lines(path):
    src = open(path).read().split('\n')
    out, doc, com = [], None, False
    for i, x in enumerate(src):
        s = x.strip()
        if path.endswith(('.pyx', '.py', '.pxd')):
            if doc:
                if doc in s:
                    doc = None
                continue
            m = re.search(r'("""|\'\'\')', s)
            if m:
                if s.count(m.group(1)) == 1:
                    doc = m.group(1)
                continue
            if not s or s.startswith(('#', 'import', 'from', 'cimport', 'cdef extern', '@', 'def ', 'class ', 'cdef class', '__all__', 'raise', 'warnings')):
                continue
        else:
            if com:
                if '*/' in s:
                    com = False
                continue
            if s.startswith('/*'):
                com = '*/' not in s
                continue
            if not s or s.startswith(('//', '#', '*', 'extern', 'return 0;', '}')) or 'printf' in s:
                continue
        out.append(i)
    return src, out


def mutate(line, R, py):
    muts = []
    code = re.split(r'//|#' if py else r'//|/\*', line)[0]
    if '"' in code or "'" in code:
        return None
    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.]*\.)', code):
        v = int(m.group(1), 0)
        for w in {v + 1, v - 1, v * 2 if v else 1}:
            if w >= 0 and w != v:
                muts.append((m.start(1), m.end(1), str(w)))
    swaps = {'<=': ['<', '=='], '>=': ['>'], '==': ['!='], '!=': ['=='], '<<': ['>>'], '>>': ['<<'], ' < ': [' <= '], ' > ': [' >= '],
             ' + ': [' - '], ' - ': [' + '], ' ^ ': [' | '], ' & ': [' | '], ' | ': [' & ', ' ^ '], '&&': ['||'], '||': ['&&'],
             ' and ': [' or '], ' or ': [' and '], 'not ': [''], 'True': ['False'], 'False': ['True'], '+=': ['-=', '='], '^=': ['='],
             '++': ['--'], ' * ': [' + '], ' // ': [' - '], ' % ': [' + ']}
    for k, vs in swaps.items():
        for m in re.finditer(re.escape(k), code):
            if k in ('not ',) and 'is not' in code:
                continue
            for v in vs:
                muts.append((m.start(), m.end(), v))
    s = code.strip()
    if (py and re.match(r'^[\w.\[\]]+ [+^-]?= .*[^,(\\]$', s) or not py and re.match(r'^[\w.>\[\]-]+ [+^|-]?= .*;$', s) or re.match(r'^self\.\w+\(.*\)$', s)):
        for _ in range(4):
            muts.append((len(code) - len(code.lstrip()), len(code.rstrip()), 'pass' if py else ';'))
    if not muts:
        return None
    a, b, v = R.choice(muts)
    return line[:a] + v + line[b:]


def built(copy):
    h = hashlib.sha256()
    for p in sorted(glob.glob(copy + '/randomgen/*.so')):
        h.update(open(p, 'rb').read())
    return h.hexdigest()


def main():
    out, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3])
    pat = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
    R = random.Random(seed)
    files = subprocess.run(['git', '-C', '/repo', 'ls-files', 'randomgen'], stdout=subprocess.PIPE, text=True).stdout.split()
    files = [f for f in files if re.search(r'\.(pyx|c|h|py)$', f) and '/tests/' not in f and not SKIP.search(f) and pat.search(f)]
    weights = [len(code_lines('/repo/' + f)[1]) ** .5 for f in files]
    tmp = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    copy = tmp + '/repo'
    try:
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        sh(copy, 'bash /opt/vp/build.sh')
        base = built(copy)
        n = 0
        while n < count:
            f = R.choices(files, weights)[0]
            src, lines = code_lines(os.path.join(copy, f))
            if not lines:
                continue
            i = R.choice(lines)
            new = mutate(src[i], R, f.endswith(('.pyx', '.py')))
            if new is None or new == src[i]:
                continue
            n += 1
            rec = {'file': f, 'line': i + 1, 'old': src[i].strip(), 'new': new.strip()}
            p = os.path.join(copy, f)
            open(p, 'w').write('\n'.join(src[:i] + [new] + src[i + 1:]))
            try:
                try:
                    sh(copy, 'bash /opt/vp/build.sh', 300)
                    if f.endswith(('.h', '.c', '.pyx')) and built(copy) == base:
                        rec['by'] = 'dead'
                        continue
                    rc, o = sh(copy, f'timeout 200 bash /opt/vp/test.sh {tmp}/out.json', 400)
                    passed = len(json.load(open(tmp + '/out.json'))['passed'])
                    os.remove(tmp + '/out.json')
                except (subprocess.TimeoutExpired, FileNotFoundError, ValueError):
                    passed = 0
                if passed != 6637:
                    rec['by'] = 'tests' if passed else 'build'
                    continue
                checks = next((c.split() for r, c in RELEVANT if re.search(r, f)), [])
                if re.search(r'squares|sfc', f) or not checks:
                    checks = checks + GEN
                rec['by'] = None
                for c in checks:
                    rv, ov = sh(copy, f'cd {HERE} && VERIF_SEED=1 VERIF_TIER=quick python3 run.py {c}')
                    v = [x for x in ov.splitlines() if x.startswith('VIOLATION')]
                    if rv == 1 and v:
                        rec['by'] = c
                        break
                    if rv not in (0, 1):
                        rec.setdefault('odd', []).append((c, rv, ov[-300:]))
            finally:
                open(p, 'w').write('\n'.join(src))
                open(out, 'a').write(json.dumps(rec) + '\n')
                print(rec, flush=True)
    finally:
        shutil.rmtree(tmp)


main()
