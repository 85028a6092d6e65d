import random
from configs import *  # noqa
from core import Stop
import models as m


def hostile_int(R, bits):
    """integers that exercise carries, sign bits and word boundaries"""
    k = R.randrange(9)
    top = (1 << bits) - 1
    if k == 0:
        return R.choice([0, 1, 2, top, top - 1, top >> 1, (top >> 1) + 1])
    if k == 1:
        b = R.choice([x for x in (8, 16, 31, 32, 33, 63, 64, 65, 95, 96, 127, 128, 160, 191, 192, 255, 256) if x <= bits])
        return max(0, min(top, (1 << b) + R.randint(-20, 20)))
    if k == 2:
        return 1 << R.randrange(bits)
    if k == 3:
        v = 0
        for _ in range(max(1, bits // 32)):
            v = (v << 32) | R.choice([0, M32, R.getrandbits(32), 0x80000000, 1])
        return v & top
    if k == 4:
        return top - R.randrange(40)
    if k == 5:
        return R.randrange(1 << min(bits, 70))
    if k == 6:
        return R.randrange(64)
    return R.getrandbits(bits)


def hostile_seed(R):
    return R.choice([0, 1, 2, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 64 - 1, 2 ** 64, 2 ** 128 + 7,
                     R.getrandbits(31), R.getrandbits(32), R.getrandbits(64), R.getrandbits(128),
                     R.getrandbits(300), R.randrange(1000)])


def ops_string(R, n, weights=None):
    """mixed view sequences with runs (so buffered halves are interleaved in every parity)"""
    out = []
    while len(out) < n:
        k = R.random()
        if k < .3:
            out += [R.choice('r36d')] * R.randint(1, 9)
        elif k < .7:
            out += ['3'] * R.randint(1, 3)
        else:
            out += [R.choice('r6d')]
    return out[:n]


def key_of(cfg, R):
    k = hostile_int(R, cfg.key_bits)
    if cfg.cls is rg.Squares:
        k |= 1
    return k


def block_words(cfg):
    return {'MT19937': 624, 'MT19937np': 624, 'MT64': 312, 'SFMT': 312, 'DSFMT': 382, 'HC128': 1024}.get(cfg.name, 64)


def numpy_equal_cases():
    return [('MT19937', rg.MT19937, np.random.MT19937), ('PCG64', rg.PCG64, np.random.PCG64),
            ('Philox', rg.Philox, np.random.Philox), ('SFC64', rg.SFC64, np.random.SFC64)]


def mutate_state(R, st):
    """a copy of the state dict with every word replaced by hostile values of the same kind"""
    import copy
    st = copy.deepcopy(st)

    def val(bits):
        return R.choice([0, 1, (1 << bits) - 1, 1 << (bits - 1), R.getrandbits(bits), R.getrandbits(bits)])
    name = st['bit_generator'].split('.')[-1]
    if 's' in st and isinstance(st['s'], np.ndarray):
        for k in range(len(st['s'])):
            st['s'][k] = val(64)
        if not st['s'].any():
            st['s'][0] = 1
    s = st.get('state')
    if name in ('PCG64', 'PCG64DXSM', 'LCG128Mix'):
        s['state'] = val(128)
        s['inc'] = val(128) | 1
    elif name == 'PCG32':
        s['state'], s['inc'] = val(64), val(64) | 1
    elif name == 'LXM':
        s['x'][:] = [val(64) for _ in range(4)]
        s['x'][R.randrange(4)] |= 1
        s['lcg_state'], s['b'] = val(64), val(64) | 1
    elif name == 'Squares':
        s['counter'] = val(64)
    elif name in ('JSF',):
        bits = st['size']
        for k in 'abcd':
            s[k] = val(bits)
        s['d'] |= 1
    elif name in ('Romu',):
        for k in 'wxyz':
            s[k] = val(64)
        s['z'] |= 1
    elif name == 'SFC64':
        for k in 'abcw':
            s[k] = val(64)
    elif name == 'Tyche':
        for k in 'abcd':
            s[k] = val(32)
    elif name == 'EFIIX64':
        for k in 'iabc':
            s[k] = val(64)
        for tb in ('indirection_table', 'iteration_table'):
            for k in range(len(s[tb])):
                s[tb][k] = val(64)
    elif name == 'Xorshift1024':
        for k in range(16):
            s['s'][k] = val(64)
        s['s'][3] = 7
        s['p'] = R.randrange(16)
    elif name in ('MT19937', 'MT64'):
        bits = 32 if name == 'MT19937' else 64
        for k in range(len(s['key'])):
            s['key'][k] = val(bits)
        s['pos'] = R.choice([0, 1, len(s['key']) - 1, len(s['key']), R.randrange(len(s['key']))])
    elif name == 'SFMT':
        for k in range(len(s['state'])):
            s['state'][k] = val(32)
        st['buffer_loc'] = R.choice([0, 311, 312, R.randrange(312)])
        for k in range(312):
            st['buffered_uint64'][k] = val(64)
    elif name == 'DSFMT':
        st['buffer_loc'] = 382
        for k in range(382):
            s['state'][k] = 0x3FF0000000000000 | val(52)
        s['state'][382], s['state'][383] = val(64), val(64)
    if 'has_uint32' in st:
        st['has_uint32'] = R.randrange(2)
        st['uinteger'] = val(32) if st['has_uint32'] else 0
    return st


def brim(R, bits):
    """just below a multiple of a power of two, so that a carry is due shortly"""
    w = R.choice([x for x in (8, 16, 31, 32, 33, 36, 48, 63, 64, 65, 68, 96, 97, 128, 160, 192, 224, 256) if x <= bits])
    hi = hostile_int(R, bits) >> w << w
    return (hi + (1 << w) - R.randrange(1, 40)) % (1 << bits)


def edgy(R, cfg, seeded=.35):
    """a generator at an unusual point: counters about to carry, states of extreme words, or just seeded"""
    if R.random() < seeded:
        return cfg.make(R.choice([R.randrange(99), R.getrandbits(64), hostile_seed(R)]))
    if cfg.keyed and R.random() < .8:
        key = key_of(cfg, R) if R.random() < .5 else R.getrandbits(cfg.key_bits) | 1
        ctr = R.choice([brim, brim, hostile_int])(R, cfg.ctr_bits) if cfg.ctr_bits else None
        return cfg.make_keyed(key, ctr)
    b = cfg.make(R.randrange(100))
    if cfg.has_load:
        st = mutate_state(R, b.state)
        if cfg.cls is rg.LXM:
            st['state']['b'] = b.state['state']['b']        # a parameter, which seeding keeps
        b.state = st
    return b


STATEFUL = ('JSF64', 'JSF32', 'SFC64', 'LXM', 'Tyche', 'LCG128Mix')     # parameters of generators whose whole state is visible
ADVANCING = ('SPECK128', 'LCG128Mix')
ROUNDS = ('ChaCha', 'SPECK128')


def params(fn, i, kinds=None):
    """the case `fn` on a generator whose constructor parameters are drawn at random"""
    def run(t):
        cfg = rand_cfg(t.rng, kinds) if kinds else rand_cfg(t.rng)
        t.note(cfg.name)
        t.hit('params', cfg.name)
        fn(cfg, i)(t)
    return run
