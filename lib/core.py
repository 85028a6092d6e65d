"""Monitor runtime: cases, oracles, journalling, sharding (runs inside the build under test)."""
import hashlib
import json
import os
import random
import sys
import time
import traceback


class Stop(Exception):
    """abandon the current case after a recorded violation"""


class T:
    """One case: records what the monitor observed."""

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        self.rng = random.Random(f"{ctx.seed}/{ctx.pid}/{name}")
        self.tier = ctx.tier
        self.evals = 0
        self.hits = set()
        self.events = 0
        self.viol = []
        self.sample = None

    def hit(self, *sig):
        """the monitor saw this distinct, non-trivial situation"""
        self.hits.add(hashlib.blake2b(repr(sig).encode(), digest_size=8).hexdigest())

    def obs(self, n=1):
        self.events += n

    def fail(self, key, msg, stop=True):
        self.viol.append((str(key), str(msg)[:1500]))
        if stop:
            raise Stop()

    def check(self, cond, key, msg, stop=True, sig=None):
        self.evals += 1
        if sig is not None:
            self.hit(*sig)
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, stop)
        return cond

    def same(self, got, want, key, what='', stop=True, sig=None):
        """sequence/array equality"""
        self.evals += 1
        try:
            self.events += len(got)
        except TypeError:
            self.events += 1
        if sig is not None:
            self.hit(*sig)
        if equal(got, want):
            return True
        self.fail(key, f"{what}: {diff(got, want)}", stop)
        return False

    def note(self, s):
        if self.sample is None:
            self.sample = str(s)[:400]


def equal(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return bool(a == b) or (a != a and b != b)


def diff(a, b):
    import numpy as np
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        if len(a) != len(b):
            return f"lengths {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if not equal(x, y):
                return f"first difference at {i} of {len(a)}: got {str(x)[:200]} expected {str(y)[:200]}"
    if isinstance(a, dict) and isinstance(b, dict):
        for k in set(a) | set(b):
            if k not in a or k not in b or not equal(a[k], b[k]):
                return f"key {k}: got {str(a.get(k))[:200]} expected {str(b.get(k))[:200]}"
    return f"got {str(a)[:300]} expected {str(b)[:300]}"


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.boost = float(os.environ.get('VERIF_BOOST') or 1)
        self.deep = float(os.environ.get('VERIF_DEEP') or 1)

    def n(self, quick, thorough):
        if self.thorough:
            if isinstance(thorough, int) and isinstance(quick, int) and thorough > quick:
                return int(thorough * self.deep)
            return thorough
        if self.boost > 1 and isinstance(quick, int) and isinstance(thorough, int):
            return max(quick, min(thorough, int(quick * self.boost)))
        return quick


def child_main():
    import argparse
    import importlib
    import warnings
    ap = argparse.ArgumentParser()
    ap.add_argument('module')
    ap.add_argument('--pid', required=True)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--of', type=int, default=1)
    ap.add_argument('--journal', required=True)
    ap.add_argument('--skip', default='')
    ap.add_argument('--only', default='')
    ap.add_argument('--expect-root', default='')
    a = ap.parse_args()
    warnings.simplefilter('ignore')
    if not os.environ.get('ASAN_OPTIONS'):
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))    # a runaway ends in MemoryError, not in a dead machine
    import randomgen
    root = os.path.dirname(os.path.dirname(os.path.abspath(randomgen.__file__)))
    if a.expect_root and os.path.realpath(root) != os.path.realpath(a.expect_root):
        print('wrong randomgen imported:', root, file=sys.stderr)
        sys.exit(97)
    mod = importlib.import_module('checks.' + a.module)
    ctx = Ctx(a.pid, a.tier, a.seed)
    cases = list(mod.cases(ctx))
    names = [c[0] for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    if a.only:
        cases = [c for c in cases if c[0] == a.only]
        if not cases:
            print('no such case', a.only, file=sys.stderr)
            sys.exit(96)
    else:
        # deterministic interleave: cases are dealt round robin
        cases = cases[a.shard::a.of]
    skip = set()
    if a.skip:
        with open(a.skip) as f:
            skip = set(json.load(f))
    j = open(a.journal, 'a', buffering=1)

    def emit(o):
        j.write(json.dumps(o) + '\n')
        j.flush()
    emit({'begin': 1, 'cases': len(names)})
    for name, fn in cases:
        if name in skip:
            continue
        emit({'start': name})
        t = T(ctx, name)
        t0 = time.time()
        harness = None
        try:
            fn(t)
        except Stop:
            pass
        except Exception as e:
            tb = traceback.format_exc()
            # an exception nobody expected from the code under test
            where = traceback.extract_tb(e.__traceback__)[-1]
            fam = name.split('/')[0]
            t.viol.append((f"unexpected-exception:{fam}:{type(e).__name__}", f"{e!r} at {where.filename.rsplit('/',1)[-1]}:{where.lineno}\n" + tb[-1200:]))
        emit({'end': name, 'evals': t.evals, 'events': t.events, 'hits': sorted(t.hits), 'viol': t.viol,
              'sample': t.sample, 'dt': round(time.time() - t0, 3), 'harness': harness})
    fin = getattr(mod, 'finish', None)
    emit({'done': 1})


if __name__ == '__main__':
    sys.modules['core'] = sys.modules['__main__']
    child_main()
