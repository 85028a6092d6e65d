#!/usr/bin/env python3
"""run.py PID [--tier T] [--seed N] [--only CASE] [--replay FILE]

Builds /repo's working tree out of tree, runs the monitored workload of one property in
parallel shards, collects verdicts and writes evidence/<PID>.json.
"""
import argparse
import collections
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import build as B  # noqa: E402

CHECKS = json.load(open(os.path.join(HERE, 'checks', 'checks.json')))
CAP = {'quick': 800, 'thorough': 6 * 3600}
STALL = {'quick': 120, 'thorough': 600}
LONG = 240       # seconds
ENOUGH = 6      # abnormal ends confirmed before the run stops


def known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == pid]


class Shard:
    def __init__(self, run, i, of, only=''):
        self.run, self.i, self.of, self.only = run, i, of, only
        self.journal = os.path.join(run.tmp, f'j{i}-{time.time_ns()}.jsonl')
        self.err = self.journal + '.err'
        self.proc = None
        self.pos = 0
        self.cur = None
        self.done = False
        self.last = time.time()
        self.restarts = 0

    def start(self, skip):
        open(self.journal, 'a').close()
        args = ['python', os.path.join(HERE, 'lib', 'core.py'), self.run.spec['module'], '--pid', self.run.pid,
                '--tier', self.run.tier, '--seed', str(self.run.seed), '--shard', str(self.i), '--of', str(self.of),
                '--journal', self.journal, '--expect-root', self.run.root]
        if self.only:
            args += ['--only', self.only]
        if skip:
            sk = self.journal + '.skip'
            json.dump(sorted(skip), open(sk, 'w'))
            args += ['--skip', sk]
        self.last = time.time()
        self.cur = None
        self.proc = subprocess.Popen(args, env=self.run.env, cwd=self.run.tmp, stdout=open(self.err, 'ab'),
                                     stderr=subprocess.STDOUT, start_new_session=True)

    def poll(self):
        with open(self.journal) as f:
            f.seek(self.pos)
            while True:
                line = f.readline()
                if not line.endswith('\n'):
                    break
                self.pos = f.tell()
                self.last = time.time()
                o = json.loads(line)
                if 'start' in o:
                    self.cur = o['start']
                elif 'end' in o:
                    self.run.result(o)
                    self.cur = None
                elif 'done' in o:
                    self.done = True
        return self.proc.poll()

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def tail(self):
        try:
            s = open(self.err, errors='replace').read()
            k = max(s.find('ERROR: AddressSanitizer'), s.find('runtime error:'))
            return s[max(0, k - 200):k + 2500] if k >= 0 else s[-2500:]
        except OSError:
            return ''


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = CHECKS[pid]
        self.t0 = time.time()
        self.evals = self.events = self.ncases = 0
        self.hits = set()
        self.viol = []          # (key, case, msg)
        self.samples = []
        self.seen = set()
        self.inconclusive = []
        self.families = collections.Counter()
        self.slow = []

    def result(self, o):
        n = o['end']
        if n in self.seen:
            return
        self.seen.add(n)
        self.ncases += 1
        self.evals += o['evals']
        self.events += o['events']
        self.hits.update(o['hits'])
        self.families[n.split('/')[0]] += 1
        self.slow.append((o['dt'], n))
        if o.get('harness'):
            self.inconclusive.append((n, o['harness']))
        for k, msg in o['viol']:
            self.viol.append((k, n, msg))
        if o['sample'] and (len(self.samples) < 6 and not any(s.startswith(n.split('/')[0]) for s in self.samples)):
            self.samples.append(f"{n}: {o['sample']}")

    def prepare(self):
        base = os.environ.get('VERIF_TMP') or tempfile.gettempdir()
        self.tmp = tempfile.mkdtemp(prefix=f'verif-{self.pid}-', dir=base)
        self.root = os.path.join(self.tmp, 'tree')
        os.mkdir(self.root)
        variant = self.spec.get('variant', 'plain')
        if os.environ.get('VERIF_DEV_TREE'):        # development of checks only: a tree built before
            os.rmdir(self.root)
            shutil.copytree(os.environ['VERIF_DEV_TREE'], self.root)
        else:
            B.build(self.root, variant)
        if self.spec.get('over'):
            B.over(self.root, self.spec['over'][0], os.path.join(HERE, self.spec['over'][1]))
        if self.spec.get('addon'):
            B.addon(self.root, os.path.join(HERE, self.spec['addon']))
        also = {}
        for v in self.spec.get('also', []):
            d = os.path.join(self.tmp, v)
            os.mkdir(d)
            B.build(d, v, base=self.root)
            also['VERIF_TREE_' + v.upper()] = d
        extra = {**also,'PYTHONPATH': os.pathsep.join([self.root, os.path.join(HERE, 'lib'), HERE]),
                 'VERIF_SCRATCH': os.path.join(self.tmp, 'scratch'), 'VERIF_HOME': HERE,
                 'VERIF_TREE': self.root,
                 'PYTHONHASHSEED': '0', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
                 'PYTHONFAULTHANDLER': '1', 'TMPDIR': self.tmp}
        os.mkdir(extra['VERIF_SCRATCH'])
        if self.spec.get('variant') == 'asan':
            lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
            ub = subprocess.run(['gcc', '-print-file-name=libubsan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
            std = subprocess.run(['gcc', '-print-file-name=libstdc++.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
            extra['LD_PRELOAD'] = f'{os.path.realpath(lib)} {os.path.realpath(std)}'
            extra['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=1500:soft_rss_limit_mb=3000:detect_stack_use_after_return=1:strict_string_checks=1'
            extra['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=99'
            extra['PYTHONMALLOC'] = 'malloc'
            extra['PYTHONFAULTHANDLER'] = ''
        if self.spec.get('preload'):
            so = os.path.join(self.tmp, 'preload.so')
            subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', so, os.path.join(HERE, self.spec['preload']), '-ldl'], check=True)
            extra['VERIF_PRELOAD'] = so
            extra['LD_PRELOAD'] = (extra.get('LD_PRELOAD', '') + ' ' + so).strip()
        if self.spec.get('boost'):
            extra['VERIF_BOOST'] = str(self.spec['boost'])
        if self.spec.get('deep'):
            extra['VERIF_DEEP'] = str(self.spec['deep'])
        extra.update(self.spec.get('env', {}))
        self.env = B.envvars(extra)

    def go(self, only=''):
        shards_n = 1 if only else int(self.spec.get('shards', 8))
        shards = [Shard(self, i, shards_n, only) for i in range(shards_n)]
        for s in shards:
            s.start(self.seen)
        cap = CAP[self.tier]
        stall = self.spec.get('stall', STALL[self.tier])
        pending = list(shards)
        self.retry = collections.Counter()
        listed = {f['key'] for f in known(self.pid)}
        while pending:
            time.sleep(0.03)
            if self.tier == 'quick' and time.time() - self.t0 > LONG and any(k not in listed for k, _, _ in self.viol):
                # a slow run that has already seen a violation need not see the rest
                for x in pending:
                    x.kill()
                    x.poll()
                return
            for s in list(pending):
                if s not in pending:
                    break
                rc = s.poll()
                if rc is None:
                    if time.time() - s.last > stall:
                        case = s.cur
                        s.kill()
                        s.poll()
                        self.bad(s, case, 'hang', f'no progress for {stall}s in case {case}', pending, only)
                    elif time.time() - self.t0 > cap:
                        for x in pending:
                            x.kill()
                        self.inconclusive.append((s.cur, 'time cap reached'))
                        return
                    continue
                s.poll()
                if s.done:
                    pending.remove(s)
                    continue
                if rc in (96, 97) or (s.cur is None and rc > 0 and rc != 99):
                    sys.stderr.write(s.tail())
                    print('harness error rc', rc, file=sys.stderr)
                    sys.exit(2)
                self.bad(s, s.cur, 'crash', f'process ended with {rc}\n' + s.tail(), pending, only)

    def bad(self, s, case, kind, msg, pending, only):
        """a case killed its process or hung: confirm once in a process of its own"""
        if case is None:
            s.restarts += 1
            if s.restarts > 3:
                sys.stderr.write(msg)
                sys.exit(2)
            s.start(self.seen)
            return
        self.retry[case] += 1
        if only or self.retry[case] > 1:
            confirmed = True
        else:
            one = Shard(self, 1000 + sum(self.retry.values()), 1, case)
            one.start(())
            confirmed = False
            while True:
                time.sleep(0.05)
                rc = one.poll()
                if rc is None:
                    if time.time() - one.last > self.spec.get('stall', STALL[self.tier]):
                        one.kill()
                        confirmed = True
                        break
                    continue
                one.poll()
                if not one.done:
                    confirmed = True
                    msg = f'process ended with {rc}\n' + one.tail()
                break
        fam = case.split('/')[0]
        if confirmed:
            sig = ''
            import re
            mm = re.search(r'(AddressSanitizer: [\w-]+|runtime error: [^\n]{0,80})', msg)
            if mm:
                sig = ':' + re.sub(r'0x[0-9a-f]+|\d+', 'N', mm.group(1))
            self.result({'end': case, 'evals': 1, 'events': 0, 'hits': [], 'dt': 0,
                         'viol': [(f'{kind}:{fam}{sig}', msg[:3000])], 'sample': None})
            self.abnormal = getattr(self, 'abnormal', 0) + 1
            if kind == 'hang' or self.abnormal >= ENOUGH:       # others would wait for the same thing
                for x in pending:
                    x.kill()
                    x.poll()
                pending.clear()
                return
            if only:
                pending.remove(s)
                return
        elif self.retry[case] == 1:
            # passed alone: carry on after it, but let a second abnormal end in the shard count
            self.flaky = getattr(self, 'flaky', 0) + 1
            self.result_missing = case
            self.retry[f'shard{s.i}'] += 1
            if self.retry[f'shard{s.i}'] == 1:
                # rerun the whole shard: memory corruption needs its history
                self.seen_backup = None
                again = Shard(self, s.i, s.of)
                again.start(())
                pending.remove(s)
                again.rerun = True
                self.retry[case] = 0
                pending.append(again)
                return
            self.result({'end': case, 'evals': 1, 'events': 0, 'hits': [], 'dt': 0,
                         'viol': [(f'{kind}-in-history:{fam}', msg[:3000])], 'sample': None})
        s.start(self.seen)

    def finish(self):
        wall = time.time() - self.t0
        kf = {f['key']: f for f in known(self.pid)}
        new, old = {}, {}
        for k, case, msg in self.viol:
            (old if k in kf else new).setdefault(k, (case, msg))
        rep_dir = os.path.join(HERE, '.replay')
        os.makedirs(rep_dir, exist_ok=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
              'coverage': {'evaluations': self.evals, 'distinct_nontrivial': len(self.hits),
                           'rule': self.spec['rule'], 'samples': self.samples,
                           'cases_run': self.ncases, 'values_observed': self.events,
                           'cases_by_family': dict(self.families)},
              'wall_s': round(wall, 2), 'violations': len(new)}
        if self.spec.get('assumptions'):
            ev['assumptions'] = self.spec['assumptions']
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w'), indent=1)
        for k in sorted(old):
            print(f'KNOWN-FINDING: property={self.pid} {kf[k]["what"]}')
        for n, (k, (case, msg)) in enumerate(sorted(new.items())):
            path = os.path.join(rep_dir, f'{self.pid}-{n}.json')
            json.dump({'property': self.pid, 'case': case, 'seed': self.seed, 'tier': self.tier, 'key': k,
                       'message': msg}, open(path, 'w'), indent=1)
            print(f'VIOLATION property={self.pid} replay={path}')
            print(f'  {k} [{case}] {msg[:700]}')
        self.slow.sort(reverse=True)
        print(f'{self.pid}: {self.ncases} cases, {self.evals} oracle evaluations, {self.events} values observed, '
              f'{len(self.hits)} distinct situations, {wall:.1f}s; slowest {self.slow[:3]}')
        if new:
            return 1
        if self.evals == 0 or not self.hits:
            print('nothing observed', file=sys.stderr)
            return 2
        if self.inconclusive:
            print('inconclusive:', self.inconclusive[:3], file=sys.stderr)
            return 2
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--only', default='')
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        a.tier, a.seed, a.only = r['tier'], r['seed'], r['case']
    run = Run(a.pid, a.tier, a.seed)
    try:
        run.prepare()
        run.go(a.only)
        rc = run.finish()
    finally:
        if not a.keep and hasattr(run, 'tmp'):
            shutil.rmtree(run.tmp, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
