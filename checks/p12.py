"""P12: generated Squares keys and SFC64 Weyl increments satisfy their published constraints."""
import warnings
from checks.common import *
from randomgen import squares as sqm
from math import comb

ISeq = None
try:
    from numpy.random.bit_generator import ISeedSequence as ISeq
except ImportError:
    from randomgen.seed_sequence import ISeedSequence as ISeq


def digits(k):
    return [(int(k) >> (4 * i)) & 15 for i in range(16)]


def key_ok(t, k, what):
    d = digits(k)
    t.evals += 1
    if not d[0] & 1:
        t.fail('even-key', f'{what}: key {int(k):#018x} is even')
    if len(set(d[:8])) != 8:
        t.fail('repeated-low-digit', f'{what}: key {int(k):#018x} repeats one of its low eight digits')
    if any(x == 0 for x in d[8:]):
        t.fail('zero-high-digit', f'{what}: key {int(k):#018x} has a zero in its upper digits')
    for i in range(8, 16):
        if d[i] == d[i - 1]:
            t.fail('repeated-high-digit', f'{what}: key {int(k):#018x}: digit {i} equals digit {i - 1}')
    if 0 in d[:8]:
        t.fail('zero-low-digit:generate_keys', f'{what}: key {int(k):#018x} has a zero among its low eight digits', stop=False)
        return False
    return True


def seed_of(R):
    k = R.randrange(6)
    s = hostile_seed(R)
    if k == 0:
        return np.random.SeedSequence(s), s
    if k == 1:
        return np.random.SeedSequence(s).spawn(3)[2], (s, (2,))
    if k == 2:
        a = [hostile_int(R, 64) for _ in range(R.randint(1, 6))]
        return a, a
    if k == 3:
        a = [hostile_int(R, 32) for _ in range(R.randint(1, 6))]
        return np.array(a, np.uint64), a
    return s, s


def again(seed):
    """the same seed, spelled afresh"""
    if isinstance(seed, np.random.SeedSequence):
        return np.random.SeedSequence(seed.entropy, spawn_key=seed.spawn_key)
    return np.array(seed, copy=True) if isinstance(seed, np.ndarray) else seed


def keys(i):
    def run(t):
        R = t.rng
        seed, name = seed_of(R)
        n = R.choice([1, 1, 2, 3, 7, 40, 200])
        u = R.random() < .5
        sqm.generate_keys(R.getrandbits(40), R.randint(1, 4))        # earlier calls must not matter
        ks = sqm.generate_keys(seed, n, u)
        t.check(isinstance(ks, np.ndarray) and ks.dtype == np.uint64 and ks.shape == (n,), 'keys-type', f'generate_keys({name}, {n}): {ks!r:.100}')
        sqm.generate_keys(R.getrandbits(40), 2)
        t.same(sqm.generate_keys(again(seed), n, u), ks, 'keys-not-reproducible', f'generate_keys({name}, {n}, unique={u}) again')
        bad = [k for k in ks if not key_ok(t, k, f'generate_keys({name}, {n}, {u})')]
        t.obs(n)
        if u:
            t.check(len(set(ks.tolist())) == n, 'keys-not-unique', f'generate_keys({name}, {n}, unique=True) repeats a key')
        for k in ks:
            t.hit('key', int(k) & 0xFFFF)
        b = rg.Squares(again(seed))
        key_ok(t, b.state['state']['key'] if 'state' in b.state else b.state['key'], f'Squares({name}) key')
        t.note(f'generate_keys({name}, {n}, unique={u}): {n} keys, {len(bad)} with a zero low digit')
    return run


class Scripted(ISeq):
    """a seed sequence that repeats itself before it starts to vary"""

    def __init__(self, words):
        self.w = words
        self.calls = []

    def generate_state(self, n, dtype=np.uint32):
        self.calls.append((n, np.dtype(dtype)))
        w = self.w
        if np.dtype(dtype) == np.uint32:
            w = [y for x in w for y in (x & M32, x >> 32)]
        while len(w) < n:
            R = random.Random(len(w))
            w = w + [R.getrandbits(64) for _ in range(n)]
        return np.array(w[:n], dtype)


def dups(i):
    """sources that genuinely repeat keys"""
    def run(t):
        R = t.rng
        n = R.choice([2, 3, 10, 40, 100])
        per = R.randint(1, 4)
        pat = [R.getrandbits(64) for _ in range(per)]
        w = (pat * (200 * n))[:R.randint(4 * n, 40 * n)] + [R.getrandbits(64) for _ in range(200)]
        plain = sqm.generate_keys(Scripted(w), n, False)
        rep = n - len(set(plain.tolist()))
        ks = sqm.generate_keys(Scripted(w), n, True)
        t.obs(n)
        t.check(ks.shape == (n,) and len(set(ks.tolist())) == n, 'keys-not-unique', f'source repeating every {per} words: {n - len(set(ks.tolist()))} of {n} keys repeat')
        for k in list(ks) + list(plain):
            key_ok(t, k, f'generate_keys(<source repeating every {per} words>, {n})')
        t.same(sqm.generate_keys(Scripted(w), n, True), ks, 'keys-not-reproducible', 'scripted source')
        t.hit('dups', n, rep, per)
        t.note(f'{rep} of {n} plain keys repeated; unique=True returned {n} distinct keys')
    return run


BADKEYS = [dict(seed=1, n=0), dict(seed=1, n=-1), dict(seed=1, n=-2 ** 40), dict(seed=-1, n=1), dict(seed=1.5, n=2), dict(seed='x', n=1), dict(seed=[1, -1], n=2),
           dict(seed=1, n='2'), dict(seed=1, n=0, unique=True)]


def badkeys(i):
    def run(t):
        try:
            r = sqm.generate_keys(**BADKEYS[i])
        except (ValueError, TypeError, OverflowError):
            t.hit('badkeys', i)
            t.check(True, '', '')
        else:
            t.fail(f'keys-accepted:{i}', f'generate_keys({BADKEYS[i]}) returned {r!r:.80}')
    return run


def pop(x):
    return bin(int(x)).count('1')


def weyl(i):
    def run(t):
        R = t.rng
        hi = R.choice([1, 2, 3, 4, 5, 8, 16, 24, 31, 32, 33, 34, 40, 48, 60, 61, 62, 63, 64, R.randint(1, 64)])
        lo = R.choice([None, hi, max(1, hi - 1), 1, R.randint(1, hi)])
        L = hi if lo is None else lo
        total = sum(comb(63, k - 1) for k in range(L, hi + 1))
        n = R.choice([1, 2, 5, 50, 64, 300, 1500])
        if n > total:
            n = R.randint(1, total)
        seed = R.getrandbits(50)
        b = rg.SFC64(seed)
        R.random() < .5 and b.random_raw(R.randrange(5))
        st = b.state
        args = (n, hi) if lo is None else (n, hi, lo)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            w = b.weyl_increments(*args)
            t.check(isinstance(w, np.ndarray) and w.dtype == np.uint64 and w.shape == (n,), 'weyl-type', f'weyl_increments{args}: {w!r:.80}')
            c = rg.SFC64(3)
            c.state = st
            t.same(c.weyl_increments(*args), w, 'weyl-not-reproducible', f'weyl_increments{args} from the same state')
        v = w.tolist()
        t.obs(n)
        t.check(all(x & 1 for x in v), 'weyl-even', f'seed {seed}: weyl_increments{args} contains an even value')
        t.check(len(set(v)) == n, 'weyl-repeat', f'seed {seed}: weyl_increments{args} repeats a value')
        bits = [pop(x) for x in v]
        t.check(all(L <= x <= hi for x in bits), 'weyl-bits', lambda: f'seed {seed}: weyl_increments{args}: a value has {[x for x in bits if not L <= x <= hi][0]} set bits')
        k = v[R.randrange(n)]
        d = rg.SFC64(5, k=k)
        t.hit('weyl', hi, L, n)
        # the increment is what the stream really uses
        st2 = d.state
        md = CFGS['SFC64'].load(st2)
        ref = [md.raw() for _ in range(4)]
        t.same([int(x) for x in d.random_raw(4)], ref, 'weyl-stream', f'SFC64(5, k={k:#x})')
    return run


def complete(hi, lo, frac):
    """(nearly) every existing increment is asked for: terminates, and all are different"""
    def run(t):
        total = sum(comb(63, k - 1) for k in range(lo, hi + 1))
        n = max(1, int(total * frac))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            w = rg.SFC64(t.rng.getrandbits(40)).weyl_increments(n, hi, lo).tolist()
            t.obs(n)
            t.check(len(set(w)) == n == len(w) and all(x & 1 and lo <= pop(x) <= hi for x in w), 'weyl-complete', f'weyl_increments({n}, {hi}, {lo})')
            b = rg.SFC64(1)
            st = b.state
            for m in (total + 1, total + 2, 2 * total + 5, 2 ** 40 if total < 2 ** 40 else total + 9):
                try:
                    b.weyl_increments(m, hi, lo)
                except ValueError:
                    t.hit('toomany', hi, lo, m)
                else:
                    t.fail('weyl-toomany', f'weyl_increments({m}, {hi}, {lo}) accepted though only {total} exist')
        t.same(b.random_raw(3), rg.SFC64(1).random_raw(3), 'weyl-refused-moved', 'stream after refused requests')
        t.hit('complete', hi, lo, n)
    return run


BADWEYL = [(0,), (-1,), (1, 0), (1, 65), (1, -3), (1, 128), (1, 256 + 8), (1, 8, 0), (1, 8, 9), (1, 8, -1), (2, 1), (2, 64), (64, 2, 2), (1, 2 ** 40), ('1',), (1, 'x'), (1, 8, 256 + 4), (65, 2, 1)]


def badweyl(i):
    def run(t):
        b = rg.SFC64(11)
        try:
            r = b.weyl_increments(*BADWEYL[i])
        except (ValueError, TypeError, OverflowError):
            t.hit('badweyl', i)
        else:
            t.fail(f'weyl-accepted:{i}', f'weyl_increments{BADWEYL[i]} returned {r!r:.80}')
        t.same(b.random_raw(3), rg.SFC64(11).random_raw(3), 'weyl-refused-moved', f'weyl_increments{BADWEYL[i]}')
    return run


def drawn_k(i):
    """increments SFC64 draws for itself (k=None) are odd and follow from the seed"""
    def run(t):
        R = t.rng
        seed, name = seed_of(R)
        b, c = rg.SFC64(seed, k=None), rg.SFC64(again(seed), k=None)
        st = b.state['state']
        vals = [int(x) for x in (st.tolist() if hasattr(st, 'tolist') else st)] if not isinstance(st, dict) else [int(x) for v in st.values() for x in np.ravel(v)]
        a, d = b.random_raw(6), c.random_raw(6)
        t.same(a, d, 'k-none', f'SFC64({name}, k=None)')
        t.check(vals[4] & 1 if len(vals) > 4 else True, 'k-even', f'SFC64({name}, k=None): increment {vals[4]:#x} is even')
        t.hit('drawn', vals[4] & 0xFFFF)
    return run


def cases(ctx):
    for i in range(ctx.n(250, 4000)):
        yield f'keys/{i}', keys(i)
    for i in range(ctx.n(60, 800)):
        yield f'dups/{i}', dups(i)
    for i in range(len(BADKEYS)):
        yield f'badkeys/{i}', badkeys(i)
    for i in range(ctx.n(250, 4000)):
        yield f'weyl/{i}', weyl(i)
    for hi, lo, f in [(1, 1, 1), (2, 2, 1), (2, 1, 1), (64, 64, 1), (63, 63, 1), (64, 63, 1), (3, 3, 1), (3, 1, .9), (62, 62, .9), (64, 62, .9)]:
        yield f'complete/{hi}-{lo}', complete(hi, lo, f)
    for i in range(len(BADWEYL)):
        yield f'badweyl/{i}', badweyl(i)
    for i in range(ctx.n(60, 500)):
        yield f'drawn/{i}', drawn_k(i)
