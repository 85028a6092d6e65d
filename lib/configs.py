"""Every generator configuration under test, with its independent model."""
import numpy as np
import randomgen as rg
import models as m
from models import words, M32, M64, M128


class Cfg:
    """name; make(seed)->bit generator; model(seq)->model seeded from a numpy SeedSequence."""

    def __init__(self, name, cls, kw, model, W, load=None, keyed=None, key_bits=0, ctr_bits=0, ctr_default=0,
                 jump=None, advance=None, per_step=1, wordtype=64):
        self.name, self.cls, self.kw, self._model = name, cls, kw, model
        self.W = W                # natural word width
        self._load = load         # state-dict -> model
        self.keyed = keyed        # (key:int, ctr:int) -> model
        self.key_bits, self.ctr_bits = key_bits, ctr_bits
        self.jump = jump          # exact number of natural draws per jump, or None
        self.advance = advance    # bits of period of advance (draws) or None
        self.wordtype = wordtype

    def make(self, seed=None, **kw):
        k = dict(self.kw)
        k.update(kw)
        return self.cls(seed, **k)

    def make_keyed(self, key, ctr=None):
        kw = dict(self.kw)
        if ctr is not None:
            kw['counter'] = ctr
        return self.cls(key=key, **kw)

    def model(self, seed):
        return self._model(seed if hasattr(seed, 'generate_state') else np.random.SeedSequence(seed))

    def load(self, st):
        mdl = self._load(st)
        if hasattr(mdl, 'has') and 'has_uint32' in st:
            mdl.has, mdl.buf = int(st['has_uint32']), int(st['uinteger'])
        return mdl

    @property
    def has_load(self):
        return self._load is not None

    def __repr__(self):
        return self.name


def cat(ws, bits=64):
    return sum(int(w) << (bits * i) for i, w in enumerate(ws))


def _blank(c):
    return c.__new__(c)


class _Cfgs(dict):
    """the fixed configurations, in order; a name such as 'ChaCha~22' builds that configuration when first asked for"""

    def __missing__(self, name):
        if '~' not in name:
            raise KeyError(name)
        if name in _made:
            return _made[name]
        kw, rest = param_cfg(name)
        c = Cfg(name, *kw, **rest)
        _made[name] = c
        return c


_made = {}      # kept apart, so that iterating CFGS sees the fixed ones only
CFGS = _Cfgs()


def add(name, *a, **k):
    CFGS[name] = Cfg(name, *a, **k)


# ---- counter / keyed
add('AESCounter', rg.AESCounter, {}, lambda s: m.AESCounter(cat(words(s, 2))), 64,
    keyed=lambda k, c: m.AESCounter(k, c), key_bits=128, ctr_bits=128, jump=1 << 64, advance=128)
for _r in (20, 8, 2, 12):
    add('ChaCha' if _r == 20 else f'ChaCha{_r}', rg.ChaCha, {} if _r == 20 else {'rounds': _r},
        lambda s, r=_r: m.ChaCha(cat(words(s, 4)), 0, r), 32,
        keyed=lambda k, c, r=_r: m.ChaCha(k, c, r), key_bits=256, ctr_bits=128)
add('HC128', rg.HC128, {}, lambda s: m.HC128(cat(words(s, 4))), 32,
    keyed=lambda k, c: m.HC128(k), key_bits=256)
for _r in (34, 8, 1, 20):
    add('SPECK128' if _r == 34 else f'SPECK128r{_r}', rg.SPECK128, {} if _r == 34 else {'rounds': _r},
        lambda s, r=_r: m.SPECK128(cat(words(s, 4)), 0, r), 64,
        keyed=lambda k, c, r=_r: m.SPECK128(k, c, r), key_bits=256, ctr_bits=128, jump=1 << 64, advance=128)
for _n in (4, 2):
    for _w in (64, 32):
        add(f'Philox{_n}x{_w}', rg.Philox, {'number': _n, 'width': _w},
            lambda s, n=_n, w=_w: m.PHILOX[w](
                cat(words(s, max(n * w // 128, 1))) % (1 << (n * w // 2)), n), _w,
            keyed=lambda k, c, n=_n, w=_w: m.PHILOX[w](k, n, c), key_bits=_n * _w // 2, ctr_bits=_n * _w,
            jump=1 << (_n * _w // 2), advance=_n * _w, wordtype=_w)
        add(f'ThreeFry{_n}x{_w}', rg.ThreeFry, {'number': _n, 'width': _w},
            lambda s, n=_n, w=_w: m.THREEFRY[w](cat(words(s, n * w // 64)), n), _w,
            keyed=lambda k, c, n=_n, w=_w: m.THREEFRY[w](k, n, c), key_bits=_n * _w, ctr_bits=_n * _w,
            jump=1 << (_n * _w // 2), advance=_n * _w, wordtype=_w)
add('Squares64', rg.Squares, {}, None, 64, load=lambda st: _blank(m.Squares64).load(st),
    keyed=lambda k, c: m.Squares64(k, c), key_bits=64, ctr_bits=64, jump=11400714819323198485, advance=64)
add('Squares32', rg.Squares, {'variant': 32}, None, 32, load=lambda st: _blank(m.Squares32).load(st),
    keyed=lambda k, c: m.Squares32(k, c), key_bits=64, ctr_bits=64, jump=11400714819323198485, advance=64)

# ---- state generators
for _v in ('xsl-rr', 'dxsm', 'dxsm-128'):
    def _pcg(s, v=_v):
        w = words(s, 4)
        mult = m.PCG_CHEAP if v == 'dxsm' else m.PCG_MULT
        out = m.out_xsl_rr if v == 'xsl-rr' else m.out_dxsm
        return m.LCG128(w[0] << 64 | w[1], w[2] << 64 | w[3], mult, out, v != 'dxsm', m.PCG_CHEAP)

    def _pcgl(st, v=None):
        v = st.get('variant', 'dxsm')
        o = _blank(m.LCG128)
        o.mult = m.PCG_CHEAP if v == 'dxsm' else m.PCG_MULT
        o.out = m.out_xsl_rr if v == 'xsl-rr' else m.out_dxsm
        o.post, o.dxsm = v != 'dxsm', m.PCG_CHEAP
        o.state, o.inc = st['state']['state'], st['state']['inc']
        return o
    add(f'PCG64-{_v}', rg.PCG64, {'variant': _v, 'inc': None}, _pcg, 64, load=_pcgl,
        jump=0x9E3779B97F4A7C15F39CC0605CEDC834, advance=128)
add('PCG64DXSM', rg.PCG64DXSM, {}, lambda s: _pcg(s, 'dxsm'), 64, load=_pcgl,
    jump=0x9E3779B97F4A7C15F39CC0605CEDC834, advance=128)


def _lcgm(s, mult=m.PCG_MULT, out='xsl-rr', dx=15750249268501108917, post=True):
    w = words(s, 4)
    return m.LCG128(w[0] << 64 | w[1], w[2] << 64 | w[3], mult, m.OUTPUTS[out], post, dx)


def _lcgl(st):
    o = _blank(m.LCG128)
    s = st['state']
    o.mult, o.dxsm, o.post, o.out = s['multiplier'], s['dxsm_multiplier'], s['post'], m.OUTPUTS[s['output_func']]
    o.state, o.inc = s['state'], s['inc']
    return o


for _o in ('xsl-rr', 'dxsm', 'murmur3', 'upper', 'lower'):
    for _p in (True, False):
        _mm = m.PCG_MULT if _p else m.PCG_CHEAP
        add(f'LCG128Mix-{_o}-{"post" if _p else "pre"}', rg.LCG128Mix,
            {'output': _o, 'post': _p, 'multiplier': _mm},
            lambda s, o=_o, p=_p, mm=_mm: _lcgm(s, mm, o, 15750249268501108917, p), 64, load=_lcgl,
            jump=0x9E3779B97F4A7C15F39CC0605CEDC834, advance=128)
add('LCG128Mix-odd', rg.LCG128Mix, {'output': 'dxsm', 'multiplier': (1 << 128) - 35, 'dxsm_multiplier': (1 << 64) - 5},
    lambda s: _lcgm(s, (1 << 128) - 35, 'dxsm', (1 << 64) - 5, True), 64, load=_lcgl,
    jump=0x9E3779B97F4A7C15F39CC0605CEDC834, advance=128)
add('PCG32', rg.PCG32, {}, lambda s: m.PCG32(*words(s, 2)), 32, load=lambda st: _blank(m.PCG32).load(st),
    jump=11400714819323198486, advance=64)
for _ss in (1, 2, 3):
    add('JSF64' if _ss == 1 else f'JSF64s{_ss}', rg.JSF, {'seed_size': _ss} if _ss > 1 else {},
        lambda s, n=_ss: m.JSF64(words(s, n), 7, 13, 37), 64, load=lambda st: _blank(m.JSF64).load(st))
    add('JSF32' if _ss == 1 else f'JSF32s{_ss}', rg.JSF, {'size': 32, 'seed_size': _ss},
        lambda s, n=_ss: m.JSF32(words(s, n, 32), 27, 17, 0), 32, load=lambda st: _blank(m.JSF32).load(st))
add('JSF64pqr', rg.JSF, {'p': 39, 'q': 11, 'r': 5}, lambda s: m.JSF64(words(s, 1), 39, 11, 5), 64,
    load=lambda st: _blank(m.JSF64).load(st))
add('JSF32pqr', rg.JSF, {'size': 32, 'p': 3, 'q': 14, 'r': 24}, lambda s: m.JSF32(words(s, 1, 32), 3, 14, 24), 32,
    load=lambda st: _blank(m.JSF32).load(st))


def _sfcl(st):
    return _blank(m.SFC64).load(st)


add('SFC64', rg.SFC64, {}, lambda s: m.SFC64(words(s, 3), 1, 1), 64, load=_sfcl)
add('SFC64k', rg.SFC64, {'w': 12345678901234567, 'k': 0x8D2E6BB6C1F4A3B5},
    lambda s: m.SFC64(words(s, 3), 12345678901234567, 0x8D2E6BB6C1F4A3B5), 64, load=_sfcl)
add('SFC64rand', rg.SFC64, {'w': None, 'k': None},
    lambda s: (lambda w: m.SFC64(w[:3], w[3], w[4] | 1))(words(s, 5)), 64, load=_sfcl)
add('SFC64rk', rg.SFC64, {'w': 7, 'k': None},
    lambda s: (lambda w: m.SFC64(w[:3], 7, w[3] | 1))(words(s, 4)), 64, load=_sfcl)
add('SFC64rw', rg.SFC64, {'w': None, 'k': 11},
    lambda s: (lambda w: m.SFC64(w[:3], w[3], 11))(words(s, 4)), 64, load=_sfcl)
add('EFIIX64', rg.EFIIX64, {}, lambda s: m.EFIIX64(words(s, 4)), 64, load=lambda st: _blank(m.EFIIX64).load(st))
add('Romu', rg.Romu, {}, lambda s: m.Romu(words(s, 4), True), 64, load=lambda st: _blank(m.Romu).load(st))
add('RomuTrio', rg.Romu, {'variant': 'trio'}, lambda s: m.Romu(words(s, 4), False), 64,
    load=lambda st: _blank(m.Romu).load(st))


def _ty(s, orig, idx=None):
    w = words(s, 3, 32)
    return m.Tyche(w[0] | w[1] << 32, w[2] if idx is None else idx, orig)


add('Tyche', rg.Tyche, {}, lambda s: _ty(s, True), 32, load=lambda st: _blank(m.Tyche).load(st))
add('TycheOR', rg.Tyche, {'original': False}, lambda s: _ty(s, False), 32, load=lambda st: _blank(m.Tyche).load(st))
add('TycheIdx', rg.Tyche, {'idx': 0xFFFFFFFE}, lambda s: _ty(s, True, 0xFFFFFFFE), 32,
    load=lambda st: _blank(m.Tyche).load(st))
add('TycheORIdx', rg.Tyche, {'idx': 3, 'original': False}, lambda s: _ty(s, False, 3), 32,
    load=lambda st: _blank(m.Tyche).load(st))
for _b in (None, 987654321987654321, 6):
    add('LXM' if _b is None else ('LXMb' if _b > 9 else 'LXMeven'), rg.LXM, {} if _b is None else {'b': _b},
        lambda s, b=_b: (lambda w: m.LXM(w[:4], w[4], 3037000493 if b is None else b))(words(s, 5)), 64,
        load=lambda st: _blank(m.LXM).load(st))
add('Xoshiro256', rg.Xoshiro256, {}, lambda s: m.Xoshiro256(words(s, 4)), 64,
    load=lambda st: _blank(m.Xoshiro256).load(st))
add('Xoshiro512', rg.Xoshiro512, {}, lambda s: m.Xoshiro512(words(s, 8)), 64,
    load=lambda st: _blank(m.Xoshiro512).load(st))
add('Xoroshiro128', rg.Xoroshiro128, {}, lambda s: m.Xoroshiro128(words(s, 2), False), 64,
    load=lambda st: _blank(m.Xoroshiro128).load(st))
add('Xoroshiro128pp', rg.Xoroshiro128, {'plusplus': True}, lambda s: m.Xoroshiro128(words(s, 2), True), 64,
    load=lambda st: _blank(m.Xoroshiro128).load(st))
add('Xorshift1024', rg.Xorshift1024, {}, lambda s: m.Xorshift1024(words(s, 16)), 64,
    load=lambda st: _blank(m.Xorshift1024).load(st))
add('MT19937', rg.MT19937, {}, lambda s: m.MT19937(words(s, 624, 32)), 32,
    load=lambda st: _blank(m.MT19937).load(st))


def _mtn(s):
    w = words(s, 624, 32)
    w[0] = 0x80000000
    return m.MT19937(mt=w, pos=623)


add('MT19937np', rg.MT19937, {'numpy_seed': True}, _mtn, 32, load=lambda st: _blank(m.MT19937).load(st))
add('MT64', rg.MT64, {}, lambda s: m.MT64(words(s, 312)), 64, load=lambda st: _blank(m.MT64).load(st))
add('SFMT', rg.SFMT, {}, lambda s: m.SFMT(words(s, 2 * 312, 32)), 64, load=lambda st: _blank(m.SFMT).load(st))
add('DSFMT', rg.DSFMT, {}, lambda s: m.DSFMT(words(s, 2 * 382, 32)), 64, load=lambda st: _blank(m.DSFMT).load(st))

# a smaller list: one representative per class/variant that changes code paths
CORE = ['AESCounter', 'ChaCha', 'HC128', 'SPECK128', 'Philox4x64', 'Philox2x64', 'Philox4x32', 'Philox2x32',
        'ThreeFry4x64', 'ThreeFry2x64', 'ThreeFry4x32', 'ThreeFry2x32', 'Squares64', 'Squares32',
        'PCG64-xsl-rr', 'PCG64-dxsm', 'PCG64-dxsm-128', 'PCG64DXSM', 'LCG128Mix-dxsm-pre', 'LCG128Mix-murmur3-post',
        'PCG32', 'JSF64', 'JSF32', 'SFC64', 'SFC64rand', 'EFIIX64', 'Romu', 'RomuTrio', 'Tyche', 'TycheOR', 'LXM', 'Xoshiro256',
        'Xoshiro512', 'Xoroshiro128', 'Xoroshiro128pp', 'Xorshift1024', 'MT19937', 'MT64', 'SFMT', 'DSFMT']


# ---- configurations with random parameters
def param_cfg(name):
    """'<kind>~<int>,<int>,...' -> arguments of Cfg"""
    kind, p = name.split('~')
    p = [int(x) for x in p.split(',')]
    if kind == 'ChaCha':
        r, = p
        return (rg.ChaCha, {'rounds': r}, lambda s: m.ChaCha(cat(words(s, 4)), 0, r), 32), dict(
            keyed=lambda k, c: m.ChaCha(k, c, r), key_bits=256, ctr_bits=128)
    if kind == 'SPECK128':
        r, = p
        return (rg.SPECK128, {'rounds': r}, lambda s: m.SPECK128(cat(words(s, 4)), 0, r), 64), dict(
            keyed=lambda k, c: m.SPECK128(k, c, r), key_bits=256, ctr_bits=128, jump=1 << 64, advance=128)
    if kind in ('JSF64', 'JSF32'):
        n, pp, q, r = p
        z = int(kind[3:])
        mod = m.JSF64 if z == 64 else m.JSF32
        return (rg.JSF, {'size': z, 'seed_size': n, 'p': pp, 'q': q, 'r': r}, lambda s: mod(words(s, n, z), pp, q, r), z), dict(
            load=lambda st: _blank(mod).load(st))
    if kind == 'SFC64':
        w, k = p
        return (rg.SFC64, {'w': w, 'k': k}, lambda s: m.SFC64(words(s, 3), w, k | 1), 64), dict(load=_sfcl)
    if kind == 'LXM':
        b, = p
        return (rg.LXM, {'b': b}, lambda s: (lambda w: m.LXM(w[:4], w[4], b))(words(s, 5)), 64), dict(
            load=lambda st: _blank(m.LXM).load(st))
    if kind == 'Tyche':
        idx, orig = p
        return (rg.Tyche, {'idx': idx, 'original': bool(orig)}, lambda s: _ty(s, bool(orig), idx), 32), dict(
            load=lambda st: _blank(m.Tyche).load(st))
    if kind == 'LCG128Mix':
        o, post, mult, dx = p
        o, post = ('xsl-rr', 'dxsm', 'murmur3', 'upper', 'lower')[o], bool(post)
        return (rg.LCG128Mix, {'output': o, 'post': post, 'multiplier': mult, 'dxsm_multiplier': dx},
                lambda s: _lcgm(s, mult, o, dx, post), 64), dict(
            load=_lcgl, jump=0x9E3779B97F4A7C15F39CC0605CEDC834, advance=128)
    raise KeyError(name)


def rand_cfg(R, kinds=('ChaCha', 'SPECK128', 'JSF64', 'JSF32', 'SFC64', 'LXM', 'Tyche', 'LCG128Mix')):
    """a configuration with every constructor parameter drawn at random"""
    k = R.choice(kinds)
    w = lambda bits: R.choice([R.getrandbits(bits), R.getrandbits(bits), R.getrandbits(bits // 2), (1 << bits) - 1 - R.randrange(64), R.randrange(64)])
    if k == 'ChaCha':
        p = (2 * R.choice([R.randint(1, 12), R.randint(1, 12), R.randint(11, 40), R.choice([64, 100, 128, 256])]),)
    elif k == 'SPECK128':
        p = (R.randint(1, 34),)
    elif k in ('JSF64', 'JSF32'):
        z = int(k[3:])
        p = (R.randint(1, 3),) + tuple(R.choice([R.randrange(z), R.randrange(z), 0, z - 1]) for _ in range(3))
    elif k == 'SFC64':
        p = (w(64), w(64) | 1)
    elif k == 'LXM':
        p = (w(64),)
    elif k == 'Tyche':
        p = (w(32), R.randrange(2))
    else:
        p = (R.randrange(5), R.randrange(2), R.getrandbits(128) >> R.choice([0, 0, 1, 40, 64]) | 5, R.getrandbits(64) >> R.choice([0, 0, 1, 20]) | 1)
    return CFGS[f'{k}~{",".join(map(str, p))}']


# ---- reading the implementation through its public views
def view32(b):
    i = b.ctypes
    f, s = i.next_uint32, i.state
    return lambda: int(f(s))


def view64(b):
    i = b.ctypes
    f, s = i.next_uint64, i.state
    return lambda: int(f(s))


def viewd(b):
    i = b.ctypes
    f, s = i.next_double, i.state
    return lambda: float(f(s))


def nats(b, cfg, n):
    """n natural words through a public view"""
    if cfg.W == 32:
        f = view32(b)
        return [f() for _ in range(n)]
    return [int(x) for x in b.random_raw(n)] if n else []


def mixed(b, rng, n, ops=None):
    """a reproducible mixed draw sequence; ops list of view codes (r,3,6,d)"""
    f = {'r': lambda: int(b.random_raw()), '3': view32(b), '6': view64(b), 'd': viewd(b)}
    return [f[o]() for o in ops]


def mixed_model(mdl, ops):
    f = {'r': mdl.raw, '3': mdl.next32, '6': mdl.next64, 'd': mdl.double}
    return [f[o]() for o in ops]
