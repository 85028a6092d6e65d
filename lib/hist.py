"""Random histories over the public interface, and canonical observations of a generator."""
import copy
import ctypes
import pickle
import warnings
import numpy as np
import randomgen as rg
from configs import view32, view64, viewd, mixed


# reduced-round variants whose words are too regular for rejection samplers to finish in reasonable time
WEAK = ('SPECK128r1', 'SPECK128r8', 'ChaCha2')


def weak(name):
    if '~' in name:
        kind, p = name.split('~')
        return kind not in ('ChaCha', 'SPECK128') or int(p.split(',')[0]) < {'ChaCha': 6, 'SPECK128': 16}[kind]
    return name in WEAK


def canon(x):
    """hashable snapshot of a state dict"""
    if isinstance(x, dict):
        return tuple(sorted((k, canon(v)) for k, v in x.items()))
    if isinstance(x, np.ndarray):
        return ('arr', str(x.dtype), x.shape, tuple(x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if isinstance(x, np.generic):
        return x.item()
    return x


def live(st):
    """canonical state without words nobody can ever read again (dead buffer content)"""
    st = copy.deepcopy(st)
    if 'has_uint32' in st and not st['has_uint32'] and isinstance(st.get('uinteger'), (int, np.integer)):
        st['uinteger'] = 0
    name = str(st.get('bit_generator', '')).split('.')[-1]

    def wipe(d, key, lo):
        a = np.array(d[key])
        a[:lo] = 0
        d[key] = a
    if name in ('SFMT',):
        wipe(st, 'buffered_uint64', int(st['buffer_loc']))
    elif name == 'DSFMT':
        wipe(st, 'buffered_uniforms', int(st['buffer_loc']))
    elif name in ('Philox', 'ThreeFry'):
        wipe(st, 'buffer', int(st['buffer_pos']))
    elif name == 'AESCounter':
        wipe(st['s'], 'state', int(st['s']['offset']))
    elif name == 'SPECK128':
        wipe(st['state'], 'buffer', int(st['state']['offset']) // 8)
    elif name == 'HC128':
        k = int(st['state']['buffer_idx'])
        wipe(st['state'], 'buffer', k if k % 16 else 16)
    return canon(st)


def has_live_half(st):
    return bool(st.get('has_uint32', 0))


def ops_string(R, n):
    out = []
    while len(out) < n:
        k = R.random()
        if k < .3:
            out += [R.choice('r36d')] * R.randint(1, 9)
        elif k < .7:
            out += ['3'] * R.randint(1, 3)
        else:
            out += [R.choice('r6d')]
    return out[:n]


def future(b, ops):
    return mixed(b, None, 0, ops)


def advance(b, cfg, n):
    if cfg.cls in (rg.Philox, rg.ThreeFry):
        b.advance(n, counter=False)
    else:
        b.advance(n)


def step(b, cfg, R, log, allow=('draw', 'raw', 'np', 'adv', 'jump', 'state', 'pickle', 'seed')):
    """one random public operation; returns the generator to continue with"""
    op = R.choice(allow)
    if op == 'draw':
        ops = ops_string(R, R.choice([1, 2, 3, 5, 9, 17, 70]))
        log.append('draw:' + ''.join(ops[:12]))
        mixed(b, None, 0, ops)
    elif op == 'raw':
        size = R.choice([0, 1, 3, 13, 64, 257, (2, 3), (0, 4), (), 700])
        out = R.random() < .7
        log.append(f'raw:{size}:{out}')
        b.random_raw(size, out)
    elif op == 'np':
        g = np.random.Generator(b)
        k = R.randrange(6)
        if k == 0 and weak(cfg.name):
            k = 2
        log.append(f'np:{k}')
        if k == 0:
            g.standard_normal(R.randrange(5))
        elif k == 1:
            g.integers(0, 128, size=R.randrange(9), dtype=np.uint8)
        elif k == 2:
            g.random(R.randrange(6), dtype=np.float32)
        elif k == 3:
            g.integers(0, 2 ** 31, size=R.randrange(5), dtype=np.uint32)
        elif k == 4:
            g.shuffle(np.arange(R.randrange(9)))
        else:
            rg.ExtendedGenerator(b).uintegers(R.randrange(6), bits=R.choice([32, 64]))
    elif op == 'adv':
        if not cfg.advance:
            return b
        d = R.choice([0, 1, 2, 3, 7, 63, 64, R.getrandbits(30), R.getrandbits(cfg.advance - 1)])
        log.append(f'adv:{d}')
        advance(b, cfg, d)
    elif op == 'jump':
        if not hasattr(b, 'jumped') or cfg.cls in (rg.MT19937, rg.SFMT, rg.DSFMT) and R.random() < .7:
            return b
        log.append('jump')
        b = b.jumped()
    elif op == 'state':
        log.append('state')
        b.state = b.state
    elif op == 'pickle':
        log.append('pickle')
        b = pickle.loads(pickle.dumps(b, R.randint(0, 5)))
    elif op == 'seed':
        log.append('seed')
        b.seed(R.randrange(1000))
    return b


def history(b, cfg, R, n, log=None, **k):
    log = [] if log is None else log
    for _ in range(n):
        b = step(b, cfg, R, log, **k)
    return b
