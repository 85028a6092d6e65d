"""P10: concurrent calls on one generator partition its stream."""
import sys
import threading
import time
from collections import Counter
from checks.common import *
from hist import *
import tsan


# ---------------------------------------------------------------- family A: the real lock under contention
def group_calls(b, kind, R):
    """callables (n or None) -> (list of words, discarded) drawing only words of one kind"""
    g, e = np.random.Generator(b), rg.ExtendedGenerator(b)
    if kind == 'r':
        return [lambda n: (b.random_raw(n), 0), lambda n: (b.random_raw((n, 1) if n else None), 0),
                lambda n: ((), (b.random_raw(n, output=False), n or 1)[1])]
    if kind == '6':
        return [lambda n: (e.uintegers(n, bits=64), 0), lambda n: (g.integers(0, M64, n, np.uint64, True), 0)]
    if kind == 'd':
        def out(n):
            o = np.empty(n or 1)
            e.random(out=o)
            return o, 0
        return [lambda n: (e.random(n), 0), lambda n: (g.random(n), 0), out]
    return [lambda n: (e.uintegers(n, bits=32), 0), lambda n: (g.integers(0, M32, n, np.uint32, True), 0)]


def serial(b, kind, n):
    e = rg.ExtendedGenerator(b)
    if kind == 'r':
        return b.random_raw(n).tolist()
    if kind == 'd':
        return e.random(n).tolist()
    return e.uintegers(n, bits=64 if kind == '6' else 32).tolist()


def contend(cfg, kind, i):
    def run(t):
        R = t.rng
        seed = R.randrange(1 << 30)
        b, twin = cfg.make(seed), cfg.make(seed)
        pre = [o for o in ops_string(R, R.randrange(20)) if kind == '3' or o != '3']
        future(b, pre)
        future(twin, pre)
        plans = []
        nthreads = 5
        for k in range(nthreads):
            calls = []
            if k < 2:                       # long calls that run without the interpreter lock
                for _ in range(4):
                    calls.append((R.randrange(9), R.choice([2000, 5000, 9000])))
            else:
                for _ in range(R.randint(25, 50)):
                    calls.append((R.randrange(9), R.choice([None, None, 1, 2, 3, 5, 17, 64, 300])))
            plans.append(calls)
        got, states, errs = [[] for _ in plans], [], []
        bar = threading.Barrier(nthreads + 1)
        fs = group_calls(b, kind, R)
        live_workers = [nthreads]

        def work(k):
            try:
                bar.wait()
                for c, n in plans[k]:
                    w, skip = fs[c % len(fs)](n)
                    got[k].append((np.atleast_1d(np.asarray(w)).ravel().tolist(), skip))
            except Exception as e:          # noqa
                errs.append(e)
            finally:
                live_workers[0] -= 1

        def reader():
            bar.wait()
            while live_workers[0] and len(states) < 6:
                with b.lock:
                    st = b.state
                states.append(st)
                time.sleep(.0003)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ths = [threading.Thread(target=work, args=(k,)) for k in range(nthreads)] + [threading.Thread(target=reader)]
            for th in ths:
                th.start()
            for th in ths:
                th.join()
        finally:
            sys.setswitchinterval(old)
        if errs:
            raise errs[0]
        total = sum(len(w) + s for g in got for w, s in g)
        S = serial(twin, kind, total + 4)
        pos = {}
        for j in range(total + 3):
            pos.setdefault((S[j], S[j + 1]), []).append(j)
        used = bytearray(total)
        bounds = {0, total}
        singles, skipped, order = Counter(), 0, []
        for k, g in enumerate(got):
            for w, s in g:
                skipped += s
                if len(w) == 1:
                    singles[w[0]] += 1
                if len(w) < 2:
                    continue
                at = [p for p in pos.get((w[0], w[1]), ()) if S[p:p + len(w)] == w]
                t.check(bool(at) and at[0] + len(w) <= total, f'run:{cfg.name}:{kind}',
                        f'seed {seed}: a concurrent draw of {len(w)} words is no contiguous run of the serial stream')
                p = at[0]
                t.check(not any(used[p:p + len(w)]), f'repeat:{cfg.name}:{kind}', f'seed {seed}: words {p}..{p + len(w)} delivered twice')
                used[p:p + len(w)] = b'\1' * len(w)
                bounds.add(p)
                bounds.add(p + len(w))
                order.append((p, k))
        rest = Counter(S[j] for j in range(total) if not used[j])
        t.check(not (singles - rest) and sum(rest.values()) - sum(singles.values()) == skipped, f'partition:{cfg.name}:{kind}',
                f'seed {seed}: {sum(rest.values())} words left for {sum(singles.values())} single and {skipped} discarded draws')
        # the generator stands exactly behind the last word
        t.same(serial(b, kind, 4), S[total:total + 4], f'position:{cfg.name}:{kind}', f'seed {seed}: stream after the concurrent calls')
        for st in states:
            c = cfg.make(0)
            c.state = st
            w = serial(c, kind, 2)
            at = pos.get((w[0], w[1]), [])
            ok = any(p in bounds or not used[min(p, total - 1)] for p in at)
            t.check(ok, f'state-read:{cfg.name}:{kind}', f'seed {seed}: a state read under the lock lies in the middle of a call ({at})')
        order.sort()
        sw = sum(1 for x, y in zip(order, order[1:]) if x[1] != y[1])
        t.obs(total)
        for x, y in zip(order, order[1:]):
            if x[1] != y[1]:
                t.hit('switch', cfg.name, kind, x[1], y[1], x[0] % 97)
        t.note(f'{cfg.name}/{kind} seed {seed}: {total} words in {sum(map(len, got))} calls of {nthreads} threads, {sw} handovers, {len(states)} states')
    return run


# ---------------------------------------------------------------- family B: recorded lock order, serial replay
class WatchedLock:
    """the generator's own lock, recording who gets it when, and delaying at both ends"""

    def __init__(self, lock, R):
        self.lock, self.log, self.tl = lock, [], threading.local()
        self.delays = [R.choice([0, 0, 0, 1e-4, 3e-4]) for _ in range(64)]
        self.n = 0

    def pause(self):
        self.n += 1
        time.sleep(self.delays[self.n % 64])

    def __enter__(self):
        self.pause()
        self.lock.acquire()
        self.log.append(getattr(self.tl, 'call', None))
        return self

    def __exit__(self, *a):
        self.lock.release()
        self.pause()

    def acquire(self, *a):
        r = self.lock.acquire(*a)
        self.log.append(getattr(self.tl, 'call', None))
        return r

    def release(self):
        self.lock.release()


class Proxy:
    """a bit generator seen through a watched lock"""

    def __init__(self, b, lock):
        self.b, self.lock, self.capsule = b, lock, b.capsule

    @property
    def state(self):
        return self.b.state

    @state.setter
    def state(self, v):
        self.b.state = v


COV = np.array([[2., .5, 0], [.5, 1, .2], [0, .2, 3]])
CALLS = {
    'u64': lambda e, g, n: e.uintegers(n, bits=64),
    'u32': lambda e, g, n: e.uintegers(n, bits=32),
    'u64s': lambda e, g, n: e.uintegers(bits=64),
    'u32s': lambda e, g, n: e.uintegers(bits=32),
    'rand': lambda e, g, n: e.random(n),
    'rands': lambda e, g, n: e.random(),
    'randf': lambda e, g, n: e.random(n, dtype=np.float32),
    'randfs': lambda e, g, n: e.random(dtype=np.float32),
    'randl': lambda e, g, n: e.random(n, dtype=np.longdouble),
    'randls': lambda e, g, n: e.random(dtype=np.longdouble),
    'out': lambda e, g, n: e.random(out=np.empty(n)).copy(),
    'outf': lambda e, g, n: e.random(out=np.empty(n, np.float32), dtype=np.float32).copy(),
    'mvn': lambda e, g, n: e.multivariate_normal(np.zeros(3), COV, n),
    'mvn1': lambda e, g, n: e.multivariate_normal(np.zeros(3), COV),
    'cn': lambda e, g, n: e.complex_normal(1, 2, .5j, n),
    'cns': lambda e, g, n: e.complex_normal(1, 2, .5j),
    'cna': lambda e, g, n: e.complex_normal(np.arange(n), 2, .5j),
    'mcn': lambda e, g, n: e.multivariate_complex_normal([1, 2j], None, None, n),
    'sw': lambda e, g, n: e.standard_wishart(5, 2, n),
    'swsmall': lambda e, g, n: e.standard_wishart(2, 4, n),
    'wi': lambda e, g, n: e.wishart(4, COV, n),
    'wismall': lambda e, g, n: e.wishart(2, COV),
    'npn': lambda e, g, n: g.standard_normal(n),
    'npi': lambda e, g, n: g.integers(0, 1000, n),
    'npg': lambda e, g, n: g.gamma(2., size=n),
}
UNIFORM = ['u64', 'u32', 'u64s', 'u32s', 'rand', 'rands', 'randf', 'randfs', 'randl', 'randls', 'out', 'outf']


def witness(cfg, i):
    def run(t):
        R = t.rng
        seed = R.randrange(1 << 30)
        b, twin = cfg.make(seed), cfg.make(seed)
        lock = WatchedLock(b.lock, R)
        names = UNIFORM if cfg.name in WEAK else list(CALLS)
        pr = Proxy(b, lock)
        plan = []
        nthreads = 4
        for k in range(nthreads):
            plan.append([(R.choice(names), R.choice([1, 2, 3, 5, 9, 200])) for _ in range(R.randint(6, 10))])
        res, errs, touched = {}, [], {}
        bar = threading.Barrier(nthreads)

        def work(k):
            try:
                e, g = rg.ExtendedGenerator(pr), np.random.Generator(pr)
                bar.wait()
                for j, (name, n) in enumerate(plan[k]):
                    lock.tl.call = (k, j)
                    n0 = len(lock.log)
                    res[k, j] = CALLS[name](e, g, n)
                    lock.tl.call = None
                    if (k + j) % 5 == 0:
                        # a state read under the lock: must be the state after the calls before it
                        lock.tl.call = ('state', k, j)
                        with lock:
                            res['state', k, j] = live(b.state)
                        lock.tl.call = None
            except Exception as ex:         # noqa
                errs.append(ex)
                bar.abort()
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ths = [threading.Thread(target=work, args=(k,)) for k in range(nthreads)]
            for th in ths:
                th.start()
            for th in ths:
                th.join()
        finally:
            sys.setswitchinterval(old)
        if errs:
            raise errs[0]
        seen, order = set(), []
        for c in lock.log:
            if c not in seen:
                seen.add(c)
                order.append(c)
        for key in res:
            nm = plan[key[0]][key[1]][0] if key[0] != 'state' else 'state'
            t.check(key in seen, f'unlocked:{nm}', f'{nm} drew from a shared generator without taking its lock')
        e, g = rg.ExtendedGenerator(twin), np.random.Generator(twin)
        prev = None
        for c in order:
            if c is None:
                continue
            if c[0] == 'state':
                t.check(res[c] == live(twin.state), f'state-order:{cfg.name}', f'seed {seed}: state read between two calls differs from the serial one')
                continue
            name, n = plan[c[0]][c[1]]
            want = CALLS[name](e, g, n)
            if c[0] != (prev or c)[0]:
                t.hit('handover', cfg.name, name, plan[prev[0]][prev[1]][0])
            t.same(np.asarray(res[c]), np.asarray(want), f'replay:{name}', f'{cfg.name} seed {seed}: {name}({n}) differs from the serial replay in lock order')
            prev = c
        t.note(f'{cfg.name} seed {seed}: {len(order)} calls replayed in the observed lock order')
    return run


def shared_state(cfg, i):
    """state changes made under the lock while others draw: every draw belongs to one of the streams"""
    def run(t):
        R = t.rng
        b = cfg.make(1)
        saved = [cfg.make(s).state for s in range(2, 5)]
        refs = []
        for st in saved:
            c = cfg.make(0)
            c.state = st
            refs.append(c.random_raw(31000).tolist())
        refs.append(cfg.make(1).random_raw(31000).tolist())
        idx = {}
        for k, r in enumerate(refs):
            for j in range(len(r) - 1):
                idx.setdefault((r[j], r[j + 1]), []).append((k, j))
        got, errs = [], []
        stop = []

        def work(n):
            try:
                while not stop:
                    got.append(b.random_raw(n).tolist())
                    if len(got) > 97:
                        return
            except Exception as e:      # noqa
                errs.append(e)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ths = [threading.Thread(target=work, args=(n,)) for n in (10, 60, 300)]
            for th in ths:
                th.start()
            for k in range(8):
                time.sleep(.0005)
                with b.lock:
                    b.state = saved[k % 3]
            stop.append(1)
            for th in ths:
                th.join()
        finally:
            sys.setswitchinterval(old)
        if errs:
            raise errs[0]
        for w in got:
            at = [(k, j) for k, j in idx.get((w[0], w[1]), ()) if refs[k][j:j + len(w)] == w]
            t.check(bool(at), f'torn:{cfg.name}',
                    f'a draw of {len(w)} words mixes two states although the state was set under the lock')
        t.hit('torn', cfg.name)
        t.obs(sum(map(len, got)))
    return run


def cases(ctx):
    for name in CORE:
        c = CFGS[name]
        for i in range(ctx.n(1, 40)):
            for kind in 'r63d':
                yield f'contend-{kind}/{c.name}/{i}', contend(c, kind, i)
        for i in range(ctx.n(3, 60)):
            yield f'witness/{c.name}/{i}', witness(c, i)
        for i in range(ctx.n(1, 10)):
            yield f'shared/{c.name}/{i}', shared_state(c, i)
    names = list(CFGS)
    for i in range(ctx.n(1, 25)):
        for k in range(0, len(names), 5):
            yield f'race/{names[k]}/{i}', tsan.family('shared', names[k:k + 5], i, ctx.n(60, 150))
