"""P07: jumped copies stand exactly the documented distance ahead; the source is untouched."""
import copy
import pickle
import f2
from checks.common import *
from hist import *
from skip import mskip
from core import diff

JUMP = [c for c in CFGS.values() if hasattr(c.cls, 'jumped')]
SKIP = [c for c in JUMP if c.jump]
LIN = {'Xoroshiro128': 64, 'Xoroshiro128pp': 64, 'Xoshiro256': 128, 'Xoshiro512': 256, 'Xorshift1024': 512, 'LXM': 128, 'LXMb': 128, 'LXMeven': 128}
BIG = {'SFMT': 'SFMT', 'DSFMT': 'DSFMT', 'MT19937': 'MT19937', 'MT19937np': 'MT19937'}
SLOW = (rg.MT19937, rg.SFMT, rg.DSFMT)
NOPICKLE = ('draw', 'raw', 'np', 'adv', 'jump', 'state')


# ------------------------------------------------------------ linear state vectors
def vec(ws, bits=64):
    return sum(int(w) << (bits * i) for i, w in enumerate(ws))


class Lin:
    """F2-linear transition of a small generator, from the independent model"""
    cache = {}

    def __init__(self, cfg):
        self.cfg = cfg
        if cfg.name.startswith('LXM'):
            step, n = (lambda s: m.xoshiro256_step(s)), 4
            self.step = lambda s: self._inplace(step, s)
        elif cfg.name == 'Xoshiro256':
            n, self.step = 4, lambda s: self._inplace(m.xoshiro256_step, s)
        elif cfg.name == 'Xoshiro512':
            n, self.step = 8, lambda s: self._inplace(m.xoshiro512_step, s)
        elif cfg.name.startswith('Xoroshiro'):
            n, self.step = 2, lambda s: self._inplace(lambda z: m.xoroshiro_step(z, cfg.name.endswith('pp')), s)
        else:
            n, self.step = 16, self.xs1024
        self.n = n
        if cfg.name not in self.cache:
            R = random.Random(cfg.name)
            phi = 1
            for _ in range(3):
                s = [R.getrandbits(64) for _ in range(n)]
                mask = R.getrandbits(64 * n)
                seq = []
                for _ in range(2 * 64 * n + 20):
                    seq.append((vec(s) & mask).bit_count() & 1)
                    s = self.step(s)
                phi = f2.lcm(phi, f2.bm(seq))
            self.cache[cfg.name] = (phi, f2.x_pow_pow2(LIN[cfg.name], phi))
        self.phi, self.j = self.cache[cfg.name]

    @staticmethod
    def _inplace(f, s):
        s = list(s)
        r = f(s)
        return s if r is None or not isinstance(r, (list, tuple)) else list(r)

    @staticmethod
    def xs1024(s):
        """16 words, s[0] is the current position"""
        s0, s1 = s[0], s[1]
        s1 = (s1 ^ (s1 << 31)) & M64
        new = s1 ^ s0 ^ (s1 >> 11) ^ (s0 >> 30)
        return [new] + s[2:] + [s0]

    def jump(self, s, k):
        g = f2.powmod(self.j, k, self.phi) if k != 1 else self.j
        out = [0] * self.n
        i = 0
        while g:
            if g & 1:
                out = [a ^ b for a, b in zip(out, s)]
            s = self.step(s)
            g >>= 1
        return out


def getvec(cfg, st):
    s = st['state'] if 'state' in st else st
    if cfg.name.startswith('LXM'):
        return [int(x) for x in s['x']]
    if cfg.cls is rg.Xorshift1024:
        p = int(s['p'])
        a = [int(x) for x in s['s']]
        return a[p:] + a[:p]
    for d in (st.get('s'), st.get('state')):
        if isinstance(d, dict):
            d = d.get('s')
        if isinstance(d, np.ndarray):
            return [int(x) for x in d]
    raise KeyError(list(st))


def linear(cfg, i):
    def run(t):
        R = t.rng
        log = []
        b = history(edgy(R, cfg), cfg, R, R.randint(0, 4), log, allow=NOPICKLE)
        nats(b, cfg, R.randrange(20))
        L = Lin(cfg)
        k = R.choice([1, 1, 1, 2, 3, 7])
        v = getvec(cfg, b.state)
        j = b.jumped(k)
        want = L.jump(v, k)
        t.note(f'{cfg.name} {log} jumped({k})')
        got = getvec(cfg, j.state)
        t.same(got, want, f'jump-distance:{cfg.name}', f'{log}: state after jumped({k}) vs transition^({k}*2**{LIN[cfg.name]})',
               sig=('lin', cfg.name, k, i))
        # the other fields: LCG part of LXM unchanged (2**128 = 0 mod 2**64), half word dropped
        a, c = b.state, j.state
        t.check(not c.get('has_uint32', 0), f'jump-half:{cfg.name}', 'a jumped copy keeps a buffered half word')
        if cfg.name.startswith('LXM'):
            t.check(int(a['state']['lcg_state']) == int(c['state']['lcg_state']) and int(a['state']['b']) == int(c['state']['b']),
                    f'jump-distance:{cfg.name}', 'LCG part')
        # stream from the expected state
        mdl = cfg.load(c)
        ops = ops_string(R, 40)
        t.same(future(j, ops), mixed_model(mdl, ops), f'jump-stream:{cfg.name}', 'stream of the jumped copy')
    return run


# ------------------------------------------------------------ Mersenne-Twister family
def bits(g):
    return [i for i in range(g.bit_length()) if g >> i & 1]


class Big:
    cache = {}

    @classmethod
    def poly(cls, name, k):
        key = (name, k)
        if key not in cls.cache:
            d = f2.load(name)
            g = d['j128'] if k == 1 else f2.powmod(d['j128'], k, d['phi'])
            cls.cache[key] = bits(g)
        return cls.cache[key]


def xor_rows(S, idx, W):
    out = np.zeros((W,) + S.shape[1:], dtype=S.dtype)
    for i in idx:
        out ^= S[i:i + W]
    return out


def sfmt(cfg, i, ks):
    """SFMT/DSFMT: distance in 128-bit steps, from the end of the buffered block"""
    def run(t):
        R = t.rng
        B = 312 if cfg.cls is rg.SFMT else 382
        for k in ks:
            b = cfg.make(hostile_seed(R))
            p = R.choice([0, 0, 1, 2, B - 1, B, R.randrange(2 * B)])
            b.random_raw(p)
            idx = Big.poly(BIG[cfg.name], k)
            W = 3 * B // 2
            c = cfg.make(0)
            c.state = b.state
            left = (-p) % B if p else 0
            c.random_raw(left)
            n = idx[-1] + W + 1
            S = np.asarray(c.random_raw(2 * n), dtype=np.uint64).reshape(n, 2)
            before = canon(b.state)
            j = b.jumped(k)
            t.check(canon(b.state) == before, f'jump-source:{cfg.name}', 'jumped() changed its source')
            got = np.asarray(j.random_raw(2 * W), dtype=np.uint64).reshape(W, 2)
            t.note(f'{cfg.name} position {p} jumped({k})')
            t.same(got, xor_rows(S, idx, W), f'jump-distance:{cfg.name}', f'position {p}, jumped({k})', sig=('big', cfg.name, p, k))
            t.obs(got.size)
            # the documented distance counts from the source, not from the end of its block
            t.check(left == 0, f'midblock-jump:{cfg.name}', f'position {p}: the {left} words left in the block are skipped as well', stop=False)
    return run


def temper(x):
    x = x ^ (x >> np.uint32(11))
    x = x ^ ((x << np.uint32(7)) & np.uint32(0x9d2c5680))
    x = x ^ ((x << np.uint32(15)) & np.uint32(0xefc60000))
    return x ^ (x >> np.uint32(18))


def mt(cfg, i, ks):
    """MT19937: window of the untempered sequence, exactly transition^(k*2**128)"""
    def run(t):
        R = t.rng
        for k in ks:
            b = cfg.make(hostile_seed(R))
            p = R.choice([0, 0, 624, 1248, R.randrange(624), R.randrange(1300)])
            if cfg.name == 'MT19937np':
                p += 1
            nats(b, cfg, p)
            # before the first block, 31 bits of word 0 are seed material outside the recursion
            proper = p > 600 and b.state['state']['pos'] == 624
            st = b.state
            pos = int(st['state']['pos'])
            idx = Big.poly('MT19937', k)
            mdl = cfg.load(st)
            x = [int(v) for v in st['state']['key']]
            # inside a block the copy is taken of the window key[pos:] + key[:pos]
            x = x[pos % 624:] + x[:pos % 624]
            W = 624
            n = idx[-1] + W + 1
            # the untempered sequence x_0.. starting with the words of the current block
            seq = np.empty(n, dtype=np.uint32)
            seq[:624] = x
            raw = list(x)
            for q in range(624, n):
                y = (raw[q - 624] & 0x80000000) | (raw[q - 623] & 0x7fffffff)
                raw.append(raw[q - 227] ^ (y >> 1) ^ (0x9908b0df if y & 1 else 0))
            seq = np.array(raw, dtype=np.uint32)
            want = xor_rows(seq, idx, W)
            before = canon(b.state)
            j = b.jumped(k)
            t.check(canon(b.state) == before, f'jump-source:{cfg.name}', 'jumped() changed its source')
            js = j.state['state']
            q = int(js['pos'])
            key = np.asarray(js['key'], dtype=np.uint32)
            got = np.roll(key, -q)
            t.note(f'{cfg.name} position {p} jumped({k})')
            lo = 0 if proper else 1
            t.check((int(got[0]) ^ int(want[0])) >> 31 == 0, f'jump-distance:{cfg.name}', 'top bit of the first word')
            t.same(got[lo:], want[lo:], f'jump-distance:{cfg.name}', f'position {p}, jumped({k}): 624-word window', sig=('big', cfg.name, p, k))
            # what is delivered next are the words of that window
            t.same(np.array(nats(j, cfg, 624 - q), dtype=np.uint32)[lo:], temper(want)[lo:624 - q], f'jump-distance:{cfg.name}',
                   f'position {p}, jumped({k}): words delivered first')
            if q not in (0, 624):
                more = np.array(nats(j, cfg, q), dtype=np.uint32)
                t.check((more == temper(want)[624 - q:]).all(), f'mt-rolled-window:{cfg.name}',
                        f'after jumped({k}) the stream leaves the jumped sequence after {624 - q} words', stop=False)
        # mid-block
        b = cfg.make(R.randrange(999))
        nats(b, cfg, 100 if cfg.name == 'MT19937' else 101)
        st = b.state
        pos = int(st['state']['pos'])
        raw = [int(v) for v in st['state']['key']]
        for q in range(624, 21500):
            y = (raw[q - 624] & 0x80000000) | (raw[q - 623] & 0x7fffffff)
            raw.append(raw[q - 227] ^ (y >> 1) ^ (0x9908b0df if y & 1 else 0))
        want = xor_rows(np.array(raw[pos:], dtype=np.uint32), Big.poly('MT19937', 1), 30)
        got = np.array(nats(b.jumped(), cfg, 30), dtype=np.uint32)
        t.check((got == temper(want)).all(), f'mt-midblock-jump:{cfg.name}', f'jumped() at position {pos} of the block is not 2**128 words ahead', stop=False)
    return run


# ------------------------------------------------------------ counters and LCGs
def skipjump(cfg, i):
    def run(t):
        R = t.rng
        if cfg.keyed and R.random() < .6:
            key = key_of(cfg, R)
            ctr = hostile_int(R, cfg.ctr_bits)
            b, mdl, how = cfg.make_keyed(key, ctr), cfg.keyed(key, ctr), f'key={key:#x} counter={ctr:#x}'
        else:
            seed = hostile_seed(R)
            b = cfg.make(seed)
            mdl, how = (cfg.model(seed) if cfg._model else cfg.load(b.state)), f'seed={seed}'
        log = [how]
        for _ in range(R.randint(1, 4)):
            ops = ops_string(R, R.choice([0, 1, 2, 3, 5, 8, 20]))
            log.append('draw ' + ''.join(ops))
            t.same(mixed(b, None, 0, ops), mixed_model(mdl, ops), f'jump-stream:{cfg.name}', str(log))
            k = R.choice([1, 1, 2, 3, 10, 1000, R.randrange(1, 1 << 20)])
            if cfg.cls is rg.Squares:
                k = min(k, 1000)
            half = bool(b.state.get('has_uint32', 0))
            b = b.jumped(k)
            log.append(f'jumped({k})')
            if cfg.cls in (rg.Philox, rg.ThreeFry):
                t.check(not mdl.q, f'midblock-jump:{cfg.cls.__name__}', f'{log}: the {len(mdl.q)} words left in the block are skipped as well', stop=False)
                mdl.ctr, mdl.q, mdl.has = (mdl.ctr + k * cfg.jump) % mdl.mod, [], 0
            else:
                mskip(mdl, k * cfg.jump)
            t.hit('skip', cfg.name, k, half)
        ops = ops_string(R, 24)
        t.note('; '.join(log))
        t.same(mixed(b, None, 0, ops), mixed_model(mdl, ops), f'jump-distance:{cfg.name}', '; '.join(log))
    return run


# ------------------------------------------------------------ every class
def general(cfg, i):
    def run(t):
        R = t.rng
        log = []
        slow = cfg.cls in SLOW
        b = history(edgy(R, cfg), cfg, R, R.randint(0, 4), log, allow=NOPICKLE[:4] + NOPICKLE[5:])
        if R.random() < .5:
            view32(b)()
        twin = pickle.loads(pickle.dumps(b))
        st = canon(b.state)
        kw = {k: v for k, v in cfg.kw.items()}
        k = R.choice([1, 2, 3]) if slow else R.choice([1, 2, 3, 5, 16, 17])
        j = b.jumped(k)
        t.note(f'{cfg.name} {log} jumped({k})')
        t.check(type(j) is type(b) and j is not b, f'jump-type:{cfg.name}', f'{type(j)}', sig=('gen', cfg.name, k, i))
        t.check(canon(b.state) == st, f'jump-source:{cfg.name}', lambda: f'{log}: jumped({k}) changed its source: {diff(b.state, twin.state)}')
        # k single jumps
        c = b
        for _ in range(k):
            c = c.jumped()
        t.check(live(c.state) == live(j.state), f'jump-compose:{cfg.name}', lambda: f'{k} x jumped() vs jumped({k}): {diff(c.state, j.state)}')
        a1, a2 = R.randint(0, k), None
        if 0 < a1 < k:
            d = b.jumped(a1).jumped(k - a1)
            t.check(live(d.state) == live(j.state), f'jump-compose:{cfg.name}', f'jumped({a1}).jumped({k - a1}) vs jumped({k})')
        # default is one
        t.check(live(b.jumped().state) == live(b.jumped(1).state), f'jump-default:{cfg.name}', 'jumped() vs jumped(1)')
        # in-place form
        if hasattr(b, 'jump') and cfg.cls is not rg.PCG64DXSM:
            e = pickle.loads(pickle.dumps(b))
            e.state = b.state
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = e.jump(k)
            t.check(r is e, f'jump-inplace:{cfg.name}', 'jump() does not return self')
            t.check(live(e.state) == live(j.state), f'jump-inplace:{cfg.name}', lambda: f'{diff(e.state, j.state)}')
        # independence, in both orders, through interfaces
        ops = ops_string(R, 40)
        jt = pickle.loads(pickle.dumps(j))
        jt.state = j.state
        want_b, want_j = future(twin, ops), future(jt, ops)
        got_b, got_j = [], []
        for o in ops:
            if R.random() < .5:
                got_b += future(b, [o])
                got_j += future(j, [o])
            else:
                got_j += future(j, [o])
                got_b += future(b, [o])
        t.same(got_b, want_b, f'jump-shares:{cfg.name}', 'source stream while the copy is in use')
        t.same(got_j, want_j, f'jump-shares:{cfg.name}', 'copy stream while the source is in use')
        t.check(want_b != want_j, f'jump-overlap:{cfg.name}', 'copy delivers the same words as its source')
        if not slow:
            t.check(b.lock is not j.lock, f'jump-shares:{cfg.name}', 'copy shares the lock')
        # the copy has its own seed sequence state: spawn/seed on one side
        j.seed(5, **({'idx': cfg.kw['idx']} if 'idx' in cfg.kw else {}))
        t.same(future(b, ops[:10]), future(twin, ops[:10]), f'jump-shares:{cfg.name}', 'seeding the copy disturbed the source')
        # forward and exactly back
        if cfg.advance and cfg.cls not in (rg.Philox, rg.ThreeFry):
            p = 1 << (129 if cfg.cls in (rg.AESCounter, rg.SPECK128) else cfg.advance)
            c = b.jumped(k)
            c.advance((-k * cfg.jump) % p)
            nats(b, cfg, 0)
            t.same(nats(c, cfg, 20), nats(pickle.loads(pickle.dumps(b)), cfg, 20), f'jump-back:{cfg.name}', f'jumped({k}) then advance back')
    return run


def cases(ctx):
    for c in SKIP:
        for i in range(ctx.n(40, 1000)):
            yield f'skip/{c.name}/{i}', skipjump(c, i)
    for n in LIN:
        c = CFGS[n]
        for i in range(ctx.n(12, 200)):
            yield f'linear/{c.name}/{i}', linear(c, i)
    big = ([1, 2], [3, 16], [17, 256], [4096, 65536], [65537, 70000]) if not ctx.thorough else \
          ([1, 2], [3, 4], [15, 16], [17, 255], [256, 257], [4095, 4096], [4097, 65535], [65536, 65537], [131072, 100000], [5, 1], [1, 7])
    for i, ks in enumerate(big):
        for n in ('SFMT', 'DSFMT'):
            yield f'sfmt/{n}/{i}', sfmt(CFGS[n], i, ks)
        for n in ('MT19937', 'MT19937np'):
            yield f'mt/{n}/{i}', mt(CFGS[n], i, ks)
    for c in JUMP:
        for i in range(ctx.n(2 if c.cls in SLOW else 12, 8 if c.cls in SLOW else 200)):
            yield f'general/{c.name}/{i}', general(c, i)
    for i in range(ctx.n(120, 3000)):
        yield f'params/skip/{i}', params(skipjump, i, ADVANCING)
    for i in range(ctx.n(60, 1500)):
        yield f'params/general/{i}', params(general, i, ('SPECK128', 'LCG128Mix', 'LXM'))
