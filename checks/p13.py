"""P13: entropy requests are complete, fresh, well shaped and honest about failure; seed expansion is SplitMix64."""
import ctypes
import decimal
import errno
import fractions
import os
import resource
import warnings
from checks.common import *
from randomgen import entropy as en
from randomgen.entropy import random_entropy, seed_by_array

L = ctypes.CDLL(os.environ['VERIF_PRELOAD'])
L.vp_log.restype = ctypes.c_void_p
EOF = 1 << 40


class Source:
    """arm the scripted source around one call; afterwards .data holds the bytes it delivered"""

    def __init__(self, oerr=0, cerr=0, plan=(), stick=0):
        self.a = (oerr, cerr, (ctypes.c_long * max(1, len(plan)))(*plan), len(plan), stick)

    def __enter__(self):
        L.vp_arm(*self.a)
        return self

    def __exit__(self, *e):
        st = (ctypes.c_long * 6)()
        L.vp_disarm(st)
        self.opens, self.closes, self.reads, self.failed, self.other, n = list(st)
        self.data = ctypes.string_at(L.vp_log(), n) if n else b''
        self.seen = self.opens + self.other + self.failed > 0


def fds():
    return sorted(os.listdir('/proc/self/fd'))


SIZES = [None, 1, 2, 3, 5, 16, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 20000, 0, (), (1,), (7,), (0,), (3, 4), (2, 0, 5), (1, 1, 1), (2, 3, 4, 5), (128, 64),
         np.int64(6), (np.int32(2), 3), (np.uint8(200),), 2 ** 15 + 1, (64, 1, 2)]


def rsize(R):
    k = R.randrange(3)
    if k == 0:
        return R.choice(SIZES)
    if k == 1:
        return R.randrange(3000)
    return tuple(R.choice([0, 1, 1, 2, 3, 4, 7]) for _ in range(R.randrange(5)))


def shape_of(size):
    if size is None:
        return None
    return tuple(int(x) for x in size) if isinstance(size, tuple) else (int(size),)


def well_shaped(t, r, size, what):
    sh = shape_of(size)
    if sh is None:
        t.check(isinstance(r, (int, np.integer)) and 0 <= int(r) < 2 ** 32, 'scalar-type', f'{what} returned {r!r:.60}')
        return np.array([int(r)], np.uint32)
    t.check(isinstance(r, np.ndarray) and r.dtype == np.uint32 and r.shape == sh, 'shape', lambda: f'{what} returned {type(r)} {getattr(r, "dtype", None)} {getattr(r, "shape", None)}, expected uint32 {sh}')
    return r.ravel()


def sysok(i):
    """healthy source: every element is a freshly delivered word"""
    def run(t):
        R = t.rng
        seen = set()
        for _ in range(12):
            size = rsize(R)
            src = R.choice(['system', 'auto', None])
            kw = {} if src is None else dict(source=src)
            what = f'random_entropy({size}, {kw})'
            f0 = fds()
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                with Source() as s:
                    r = random_entropy(size, **kw) if R.random() < .5 or size is not None else random_entropy(**kw)
            t.check(not ws, 'warned', f'{what} warned {[str(w.message) for w in ws]} though the source worked')
            w = well_shaped(t, r, size, what)
            b = w.tobytes()
            if s.seen or not len(w):
                t.check(b in s.data, 'not-delivered', f'{what}: the words returned are not those the source delivered ({len(s.data)} bytes for {len(b)}): {b[:24].hex()} from {s.data[:24].hex()}')
                t.check(s.opens == s.closes, 'fd-leak', f'{what}: {s.opens} opens, {s.closes} closes')
            t.check((w != 0).all() if s.seen else True, 'unfilled', f'{what}: zero words')
            t.check(fds() == f0, 'fd-leak', f'{what}: descriptors {f0} became {fds()}')
            if len(w) > 2:
                t.check(b not in seen, 'stale', f'{what} repeats an earlier answer')
                seen.add(b)
            r2 = r
            if isinstance(r2, np.ndarray) and r2.size:
                r2[...] = 0                                   # the caller owns it
            t.obs(len(w))
            t.hit('ok', str(size) if size is None else shape_of(size), src)
        t.note(f'{what}: {len(w)} words, all as delivered; opens={s.opens} reads={s.reads} closes={s.closes}')
    return run


def fault(i):
    """scripted failures of open, read, close"""
    def run(t):
        R = t.rng
        for _ in range(8):
            size = rsize(R)
            n = 1 if size is None else int(np.prod(shape_of(size)))
            k = R.choice(['open', 'read', 'short', 'eof', 'eintr', 'close', 'mixed', 'short-sticky'])
            E = R.choice([errno.EIO, errno.ENOENT, errno.EMFILE, errno.EACCES, errno.EBADF, errno.ENOMEM])
            part = R.choice([1, 2, 3, 4, 4 * n - 1, 4 * n - 4, max(1, 2 * n), R.randint(1, max(1, 4 * n))])
            part = max(1, min(part, max(1, 4 * n - 1)))
            o, c, plan, stick = 0, 0, (), 0
            if k == 'open':
                o = E
            elif k == 'read':
                plan, stick = (-E,), 1
            elif k == 'short':
                plan = (part,)
            elif k == 'short-sticky':
                plan, stick = (part, -E), 1
            elif k == 'eof':
                plan, stick = R.choice([(EOF,), (part, EOF)]), 1
            elif k == 'eintr':
                plan = (-errno.EINTR,) * R.randint(1, 3)
            elif k == 'close':
                c = E
            else:
                plan = tuple(R.choice([-E, part, 0, -errno.EINTR]) for _ in range(R.randint(1, 4)))
                c = R.choice([0, E])
            hard = k in ('open', 'read', 'eof', 'short-sticky')       # nothing can succeed
            src = R.choice(['system', 'auto', 'auto'])
            what = f'random_entropy({size}, {src!r}) under {k} open={o} plan={plan} close={c}'
            f0 = fds()
            err = None
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                with Source(o, c, plan, stick) as s:
                    try:
                        r = random_entropy(size, src)
                    except RuntimeError as e:
                        err = e
            t.obs(s.opens + s.reads + s.closes + s.failed)
            t.check(fds() == f0, 'fd-leak', f'{what}: descriptors {f0} became {fds()}')
            t.check(s.opens == s.closes, 'fd-leak', f'{what}: {s.opens} opens, {s.closes} closes')
            warned = [w for w in ws if issubclass(w.category, RuntimeWarning)]
            if err is not None:
                t.check(src == 'system', 'auto-raised', f'{what} raised {err!r} instead of falling back')
                t.check(s.failed > 0, 'raised-healthy', f'{what} raised though nothing failed')
            elif warned:
                t.check(src == 'auto', 'system-fellback', f'{what} fell back though asked for the system source')
                w = well_shaped(t, r, size, what)
                t.check((w == 0).sum() <= 1, 'fallback-unfilled', f'{what}: {(w == 0).sum()} of {len(w)} words are zero')
            else:
                w = well_shaped(t, r, size, what)
                b = w.tobytes()
                if len(w) and s.seen:
                    t.check(b in s.data, 'failure-hidden', f'{what} returned normally, but {len(b)} bytes {b[:16].hex()}... are not what the source delivered ({len(s.data)} bytes)')
                    if s.failed:
                        t.check(not hard, 'failure-hidden', f'{what} returned normally')
            # healthy again straight afterwards
            with Source() as s2:
                q = random_entropy(3)
            t.check(q.tobytes() in s2.data or not s2.seen, 'not-recovered', f'after {what}')
            t.hit('fault', k, src, err is not None, bool(warned), 'None' if size is None else min(n, 3), plan[:2] if k == 'mixed' else len(plan), E if k == 'open' else 0)
        t.note(f'{what}: {"raised" if err else "fell back" if warned else "returned"}; descriptors unchanged')
    return run


def fallback(i):
    def run(t):
        R = t.rng
        for _ in range(6):
            size = rsize(R)
            what = f"random_entropy({size}, 'fallback')"
            with Source(errno.EIO) as s:
                r = random_entropy(size, 'fallback')
            w = well_shaped(t, r, size, what)
            t.check((w == 0).sum() <= 1, 'fallback-unfilled', f'{what}: {(w == 0).sum()} of {len(w)} words are zero')
            if len(w) >= 200:
                t.check(len(set(w.tolist())) > 1, 'fallback-constant', f'{what}: all {len(w)} words are equal')
            t.obs(len(w))
            t.hit('fallback', None if size is None else shape_of(size))
        t.note(f'{what}: {len(w)} words')
    return run


BAD = [(-1, 'system'), (-5, 'auto'), (-1, 'fallback'), ((2, -3), 'system'), ((-1,), 'auto'), ((5, -1), 'fallback'), ((-1, 4), 'system'), ([2, 3], 'system'), ('3', 'auto'), (2.5, 'system'), ((2, 2.5), 'system'),
       (2 ** 70, 'system'), ((2 ** 33, 2 ** 33), 'system'), ((2 ** 32, 2 ** 32), 'fallback'), ((2 ** 62 + 1, 4), 'auto'), ((2 ** 31, 2 ** 31, 4), 'system'), ({}, 'system'), ((None,), 'system'),
       (1, 'System'), (1, ''), (1, None), (1, 3), (None, 'sys'), (4, b'system'), ((0, -1), 'system'), ((-1, -1), 'system'), ((-2, -2), 'auto'), ((-2, 2, -1), 'system'), (2 ** 62, 'system'), (2 ** 45, 'auto'), (2 ** 45, 'fallback')]


def bad(i):
    def run(t):
        size, src = BAD[i]
        f0 = fds()
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            with Source() as s:
                try:
                    r = random_entropy(size, src)
                except (ValueError, TypeError, OverflowError, MemoryError, RuntimeError) as e:
                    t.hit('bad', i)
                    t.check(True, '', '')
                    t.note(f'random_entropy({size}, {src!r}): {e!r}')
                else:
                    t.fail(f'accepted:{i}', f'random_entropy({size}, {src!r}) returned {r!r:.80}')
        t.check(fds() == f0 and s.opens == s.closes, 'fd-leak', f'random_entropy({size}, {src!r})')
    return run


def smix(state):
    state = (state + 0x9E3779B97F4A7C15) & M64
    z = state
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return state, z ^ (z >> 31)


def expand(words, n):
    st, out = 0, [0] * n
    for i in range(max(n, len(words))):
        if i < len(words):
            st ^= words[i]
        st, v = smix(st)
        out[i % n] = v
    return out


def spellings(R, w):
    """equivalent spellings of the word list w"""
    out = [w, tuple(w), np.array(w, np.uint64), np.array(w, object)]
    if len(w) > 0:
        a = np.zeros(2 * len(w), np.uint64)
        a[::2] = w
        out.append(a[::2])
        out.append(np.array(w[::-1], np.uint64)[::-1])
        out.append(np.array(w, '>u8'))
        ro = np.array(w, np.uint64)
        ro.flags.writeable = False
        out.append(ro)
        out.append(np.array([w], np.uint64))
        out.append(np.array(w, np.uint64)[:, None])
        for dt, top in (('u1', 8), ('u2', 16), ('u4', 32), ('i8', 63), ('i4', 31)):
            if max(w) < 1 << top:
                out.append(np.array(w, dt))
        if max(w) < 2 ** 53:
            out.append(np.array(w, float))
            out.append([float(x) for x in w])
    if len(w) == 1:
        v = w[0]
        out += [v, np.uint64(v), np.array(v, np.uint64), np.array([[v]], np.uint64)]
        if v < 2 ** 63:
            out.append(np.int64(v))
        if v < 2 ** 32:
            out.append(np.uint32(v))
        if v < 2:
            out.append(bool(v))
        if v < 2 ** 53:
            out += [float(v), np.float64(v)]
    return out


def sba(i):
    def run(t):
        R = t.rng
        for _ in range(20):
            k = R.choice([1, 1, 1, 2, 3, 4, 5, 8, 17, 64])
            top = R.choice([1, 8, 16, 31, 32, 53, 63, 64, 64])
            w = [hostile_int(R, 64) & ((1 << top) - 1) for _ in range(k)]
            n = R.choice([1, 1, 2, 3, 4, 5, 7, 16, 33, k, k + 1, max(1, k - 1), 100])
            want = expand(w, n)
            sp = spellings(R, w)
            for s in [sp[0]] + R.sample(sp, min(3, len(sp))):
                keep = repr(s)
                r = seed_by_array(s, n)
                t.check(isinstance(r, np.ndarray) and r.dtype == np.uint64 and r.shape == (n,), 'sba-type', lambda: f'seed_by_array({keep:.60}, {n}): {r!r:.80}')
                t.same([int(x) for x in r], want, 'sba-words', f'seed_by_array({keep:.80}, {n})')
                t.check(repr(s) == keep, 'sba-argument', f'seed_by_array changed its argument {keep:.60}')
                r[:] = 0
                t.hit('sba', k, n, type(s).__name__, getattr(s, 'dtype', None) and str(s.dtype), top)
        t.note(f'seed_by_array({keep:.60}, {n}) = {[hex(x) for x in want[:3]]}')
    return run


BADSEEDS = [-1, 2 ** 64, 1.5, -0.5, float('nan'), float('inf'), 'a', '12', None, 1j, [1, -1], [2 ** 64], [1, 2 ** 64], [0.5], [1, 2.25], [float('nan')], [1, float('inf')], [[1, 2], [3, 4]], np.zeros((2, 2, 2)),
            ['a'], [None], [1, None], np.array(1.5), np.float32(.5), np.array([-1], np.int64), np.array(-3), [1 + 2j], np.array([1, 2j]), object(), {}, [[1], [2, 3, 4]] if False else [1, 'x'], 2 ** 200, -2 ** 70, [2 ** 200], {1, 2}, b'ab',
            decimal.Decimal('1.5'), fractions.Fraction(1, 3)]
BADN = [-1, -2 ** 40, 2 ** 70, 'x', 1.5, None, 0]


def badseed(i):
    def run(t):
        s = BADSEEDS[i]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = seed_by_array(s, 3)
        except (ValueError, TypeError, OverflowError) as e:
            t.hit('badseed', i)
            t.check(True, '', '')
            t.note(f'seed_by_array({s!r}, 3): {e!r}')
        else:
            t.fail(f'sba-accepted:{i}', f'seed_by_array({s!r}, 3) returned {r!r}')
    return run


def badn(i):
    def run(t):
        try:
            r = seed_by_array(7, BADN[i])
        except (ValueError, TypeError, OverflowError, IndexError, MemoryError):
            t.hit('badn', i)
            t.check(True, '', '')
        else:
            t.check(BADN[i] == 0 and r.shape == (0,), f'sba-n-accepted:{i}', f'seed_by_array(7, {BADN[i]}) returned {r!r}')
    return run


def zeros(t):
    """no request, no words"""
    for n in (0,):
        try:
            r = seed_by_array([1, 2], n)
        except (ValueError, IndexError):
            pass
        else:
            t.check(r.shape == (0,), 'sba-zero', f'{r!r}')
    for e in ([], np.array([], np.uint64)):
        try:
            r = seed_by_array(e, 2)
        except (ValueError, TypeError, IndexError):
            continue
        t.same([int(x) for x in r], expand([], 2), 'sba-empty', f'seed_by_array({e!r}, 2)')
    t.check(True, '', '')
    t.hit('zeros')


def many(t):
    """exhaust the descriptors: a leak of one per failing call is fatal long before the end"""
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (256, hard))
    try:
        n = t.ctx.n(600, 5000)
        for j in range(n):
            for plan in ((-errno.EIO,), (2,), (EOF,)):
                with Source(0, 0, plan, 1 if plan[0] != 2 else 0):
                    try:
                        random_entropy(4)
                    except RuntimeError:
                        pass
        with Source() as s:
            try:
                r = random_entropy(5)
            except RuntimeError as e:
                t.fail('fd-leak', f'after {3 * n} failing calls a healthy source cannot be opened any more: {e!r}')
        t.check(r.tobytes() in s.data or not s.seen, 'fd-leak', 'after many failing calls')
        t.obs(3 * n)
        t.hit('many', n)
    finally:
        resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))


def real(i):
    """the real device, unscripted"""
    def run(t):
        R = t.rng
        a = [random_entropy(64).tobytes() for _ in range(20)]
        t.check(len(set(a)) == 20, 'stale', 'repeated answers')
        w = np.frombuffer(b''.join(a), np.uint32)
        ones = sum(bin(int(x)).count('1') for x in w)
        t.check(abs(ones - 16 * len(w)) < 12 * (8 * len(w)) ** .5, 'biased', f'{ones} set bits in {len(w)} words')
        t.check(len({int(random_entropy()) for _ in range(50)}) > 45, 'stale', 'scalar answers')
        big = random_entropy(R.choice([300000, (1000, 333)]))
        z = int((big == 0).sum())
        t.check(z < 8, 'unfilled', f'{z} zero words of {big.size}')
        t.obs(big.size)
        t.hit('real', i)
    return run


def cases(ctx):
    for i in range(ctx.n(120, 2000)):
        yield f'sysok/{i}', sysok(i)
    for i in range(ctx.n(250, 5000)):
        yield f'fault/{i}', fault(i)
    for i in range(ctx.n(40, 400)):
        yield f'fallback/{i}', fallback(i)
    for i in range(len(BAD)):
        yield f'bad/{i}', bad(i)
    for i in range(ctx.n(150, 3000)):
        yield f'sba/{i}', sba(i)
    for i in range(len(BADSEEDS)):
        yield f'badseed/{i}', badseed(i)
    for i in range(len(BADN)):
        yield f'badn/{i}', badn(i)
    yield 'zeros/0', zeros
    yield 'many/0', many
    for i in range(ctx.n(4, 40)):
        yield f'real/{i}', real(i)
