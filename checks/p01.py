"""P01: memory safety and defined behaviour. The deciding monitors are AddressSanitizer, UndefinedBehaviorSanitizer and the
process itself (a report, a fatal signal or no progress is a violation); the workloads of the other properties and a fuzzer of the
public interface provide the executions. Values are compared only to find reads of uninitialised memory."""
import copy
import gc
import importlib
import inspect
import json
import os
import pickle
import subprocess
import sys
import threading
import warnings
from checks.common import *
from hist import *
from core import T as Case
import checks.p19 as p19

import randomgen.entropy
import randomgen.wrapper
import randomgen.seed_sequence
import randomgen._seed_sequence
import randomgen.broadcasting

# (module, families, cases at quick, cases at thorough)
BORROW = [('p02', ('state', 'keyed', 'wrap', 'long'), 500, 6000), ('p03', None, 250, 3000), ('p04', None, 200, 2000), ('p05', None, 350, 4000), ('p05', ('spelled', 'edges'), 250, 3000),
          ('p06', None, 250, 3000), ('p07', None, 200, 1500), ('p08', ('interleave', 'shapes', 'shared'), 300, 4000), ('p10', ('contend', 'witness'), 12, 100), ('p11', None, 20, 200),
          ('p12', None, 60, 800), ('p13', ('sba', 'badseed', 'badn', 'bad', 'real'), 60, 600), ('p14', None, 150, 2000), ('p15', None, 60, 600),
          ('p16', None, 60, 600), ('p17', None, 60, 600), ('p18', None, 60, 600), ('p19', None, 500, 6000), ('p20', ('direct', 'derived', 'native', 'raising', 'forwarding', 'refused', 'lifetime'), 120, 1500),
          ('p22', None, 200, 3000), ('p23', None, 120, 1500)]


def borrow(fn, name, mod):
    """run a case of another property; its verdicts are not this property's"""
    def run(t):
        c = Case(t.ctx, name)
        try:
            fn(c)
        except Stop:
            pass
        except Exception:
            pass
        t.evals += 1
        t.obs(c.events)
        t.hits.update(c.hits)
        t.note(f'{name} of {mod} under the sanitizers')
        gc.collect(0)
    return run


def use(b, cfg, R, hard=True):
    """everything one can do with a generator that accepted something odd"""
    n = block_words(cfg) + 20 if hard else 30
    steps = [lambda: future(b, '3' * 5 + '6' * 3 + 'd3r'), lambda: b.random_raw(n), lambda: b.state, lambda: pickle.loads(pickle.dumps(b)).random_raw(3),
             lambda: copy.deepcopy(b).random_raw(9), lambda: setattr(b, 'state', b.state), lambda: b.random_raw(n, False), lambda: repr(b),
             lambda: np.random.Generator(b).bytes(33), lambda: rg.ExtendedGenerator(b).uintegers(n, bits=32), lambda: np.random.Generator(b).random(n, dtype=np.float32),
             lambda: rg.ExtendedGenerator(b).random(5, dtype='longdouble'), lambda: future(b, ops_string(R, 40))]
    if cfg.advance:
        steps.append(lambda: advance(b, cfg, R.getrandbits(70)))
    if hasattr(b, 'jumped') and cfg.cls not in (rg.MT19937, rg.SFMT, rg.DSFMT):
        steps.append(lambda: b.jumped().random_raw(20))
    R.shuffle(steps)
    for s in steps:
        try:
            s()
        except Exception:
            pass


def indices(x):
    """replacements that matter to something used as an index or a count"""
    return [-1, -2, x + 1, x - 1, x * 2 + 2, 2 ** 15, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, -2 ** 63, 16, 17, 255, 256, 312, 313, 382, 383, 384, 624, 625, 1023, 1024, 1025,
            np.int64(-1), np.uint64(2 ** 64 - 1), np.int32(7), True]


def states(cfg, i):
    def run(t):
        R = t.rng
        b = history(edgy(R, cfg), cfg, R, R.randint(0, 3), allow=('draw', 'raw', 'adv', 'state'))
        st = b.state
        ps = list(p19.leaves(st))
        ints = [p for p in ps if isinstance(p19.get(st, p), (int, np.integer))]
        for _ in range(14):
            if ints and R.random() < .6:
                p = R.choice(ints)
                v = R.choice(indices(int(p19.get(st, p))))
            else:
                p = R.choice(ps)
                v = R.choice(p19.mutants(p19.get(st, p), R))
            d = p19.put(st, p, v)
            if R.random() < .4:
                q = R.choice(ps)
                if q[:len(p)] != p and p[:len(q)] != q:
                    d = p19.put(d, q, R.choice(p19.mutants(p19.get(st, q), R) + ([R.choice(indices(int(p19.get(st, q))))] if q in ints else [])))
            t.evals += 1
            try:
                if R.random() < .8:
                    b.state = d
                else:
                    b.__setstate__(d)
                ok = True
            except Exception as e:
                ok = type(e).__name__
            t.hit('state', cfg.cls.__name__, p, ok, str(v)[:20])
            use(b, cfg, R, hard=ok is True)
            if R.random() < .3:
                b.state = st
        t.note(f'{cfg.name}: states with hostile fields, then every kind of use')
    return run


# ------------------------------------------------------------------------------------------------------------- interface fuzzer
class Odd:
    """an object that lies"""

    def __init__(self, R):
        self.k = R.randrange(6)

    def __len__(self):
        return [3, 0, 2 ** 40, 1, 5, 2][self.k]

    def __getitem__(self, i):
        if self.k == 0:
            raise RuntimeError('no item')
        if isinstance(i, int) and i < 4:
            return [1, 2, 3, 4][i]
        raise IndexError

    def __index__(self):
        if self.k == 1:
            raise RuntimeError('no index')
        return [1, 1, -1, 3, 2 ** 70, 0][self.k]

    def __float__(self):
        if self.k == 2:
            raise RuntimeError('no float')
        return [.5, 1., 2., float('nan'), 1e300, -1.][self.k]

    def __eq__(self, o):
        if self.k == 3:
            raise RuntimeError('no comparison')
        return self.k == 4

    __hash__ = object.__hash__

    def __array__(self, dtype=None, copy=None):
        if self.k == 5:
            raise RuntimeError('no array')
        return np.arange(self.k, dtype=dtype)

    @property
    def capsule(self):
        return [None, 5, 'x', object(), CAPSULE, b''][self.k]

    @property
    def lock(self):
        return threading.Lock()


CAPSULE = None


def arrays(R):
    dt = R.choice([np.uint64, np.uint32, np.int64, np.float64, np.float32, np.uint8, np.complex128, object, bool, '>u8', 'S3', 'M8[s]', np.longdouble, 'V5'])
    sh = R.choice([(), (0,), (1,), (2,), (3,), (4,), (5,), (16,), (17,), (2, 2), (3, 3), (2, 3), (1, 1), (2, 2, 2), (0, 3), (3, 0), (624,), (1024,)])
    a = np.zeros(sh, dtype=dt)
    try:
        if R.random() < .7 and a.size:
            f = a.reshape(-1)
            for k in range(min(f.size, 40)):
                f[k] = R.choice([0, 1, 2, 5, 2 ** 31, 255, 2 ** 63 - 1])
        if R.random() < .2:
            a = np.eye(a.shape[-1]) if a.ndim == 2 else a
        if R.random() < .2:
            a = a[::2] if a.ndim else a
        if R.random() < .1:
            a = np.asfortranarray(a)
        if R.random() < .15:
            a.flags.writeable = False
    except Exception:
        pass
    return a


def value(R, cfg=None):
    z = R.randrange(16)
    if z < 4:
        return R.choice([0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 31, 32, 33, 64, 100, 128, 256])
    if z == 4:
        return R.choice([-1, -2, -2 ** 31, -2 ** 63, -2 ** 64, -2 ** 200, 2 ** 44, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 128, 2 ** 256, 2 ** 500])
    if z == 5:
        return R.choice([.5, 1., 0., -1., 1e300, -1e300, 5e-324, float('nan'), float('inf'), -float('inf'), 1e19, 2.5, 12., np.float32(2), np.float16(9)])
    if z == 6:
        return R.choice([None, True, False, '', 'abc', 'svd', 'cholesky', 'eigh', 'raise', 'ignore', 'warn', 'dxsm', 'xsl-rr', 'raw', 'quad', 'trio', 'auto', 'fallback', 'double', 'uint64', b'xy', 'é\0x'])
    if z in (7, 8):
        return arrays(R)
    if z == 9:
        return R.choice([(2, 3), (0,), (), (3, 0), (1,), (2, 0, 2), (-1,), (2, -1), (2 ** 40, 2 ** 40), (2 ** 63, 0), (2 ** 32, 2 ** 32), [2, 3], (1.5,), (None,), 5 * [1], 40 * (1,), (2 ** 31, 2 ** 31, 4)])
    if z == 10:
        return R.choice([np.int8(-3), np.uint8(200), np.uint64(2 ** 64 - 1), np.int64(-2 ** 63), np.bool_(True), np.uint32(7), np.complex128(1j), np.datetime64('2001-01-01'), np.float32('nan')])
    if z == 11:
        return R.choice([np.float64, np.float32, 'f4', 'longdouble', np.uint32, np.uint64, 'u8', int, object, np.dtype('f8'), '>f8', np.float16])
    if z == 12:
        return Odd(R)
    if z == 13:
        return R.choice([{}, {'a': 1}, [], [[]], [1, 2, 3], ['a'], [None], set(), {1}, range(4), iter([1, 2]), slice(3), object(), len, type, 3 + 4j, Ellipsis, NotImplemented])
    if z == 14:
        return R.choice([lambda *a: 1, lambda *a: -1, lambda *a: 'x', lambda: 1, lambda *a: 2 ** 70, lambda *a: .5, dict, CFGS['PCG64DXSM'].make(1), rg.Romu(3), np.random.PCG64(3),
                         np.random.SeedSequence(3), randomgen._seed_sequence.SeedSequence(5), rg.SFC64(1).capsule, np.random.default_rng(2), rg.ExtendedGenerator(rg.JSF(2)),
                         threading.Lock(), p19.Faulty(R.randrange(3)), memoryview(b'abcdefgh'), bytearray(16)])
    c = CFGS[R.choice(list(CFGS))]
    return c.make(R.randrange(9)).state


SLOW = {'jump', 'jumped', 'jump_inplace'}         # work grows with the argument, or one step is long
NEVER = {'__class__', '__dict__', '__init_subclass__', '__subclasshook__', '__getattribute__', '__getattr__', '__del__', '__dealloc__', '__new__', '__pyx_vtable__',
         # a second initialisation of a live object is no public use
         '__init__', 'cffi', '_benchmark',
         # hands the capsule or address of memory to whoever asks
         '__sizeof__', '__dir__', '__doc__', '__module__'}


def names(o):
    return [n for n in dir(type(o)) if n not in NEVER and n not in ('__subclasscheck__', '__instancecheck__', '__reduce_cython__', '__setstate_cython__')]


def args_for(f, n, R):
    """arguments by the names of the parameters where the signature is known"""
    try:
        ps = [p for p in inspect.signature(f).parameters.values() if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)]
    except (ValueError, TypeError):
        ps = None
    if ps is None:
        return [value(R) for _ in range(R.choice([0, 0, 1, 1, 2, 3]))], {}
    a, kw = [], {}
    for k, p in enumerate(ps):
        if p.default is not p.empty and R.random() < .45:
            continue
        v = plausible(p.name, R) if R.random() < .55 else value(R)
        if p.kind == p.KEYWORD_ONLY or len(a) < k or R.random() < .2:
            kw[p.name] = v
        else:
            a.append(v)
    if R.random() < .04:
        a.append(value(R))
    return a, kw


def plausible(n, R):
    cov = [np.eye(2), np.eye(3), np.array([[1, .5], [.5, 1]]), np.stack([np.eye(2)] * 3), np.ones((2, 2)), [[1, 2], [3]], np.zeros((2, 2)), np.eye(2) * np.nan, np.zeros((0, 0)), np.eye(2, dtype=complex), np.eye(2) * 1e300]
    d = {'size': [None, 3, (2, 2), 0, (), (0, 2), 5, -1, 2 ** 62, (2 ** 33, 2 ** 33), np.int64(3), [2, 2], 700], 'output': [True, False], 'out': [None, np.empty(3), np.empty(3, np.float32), np.empty((2, 2)), np.empty(8)[::2], np.empty(2, np.longdouble)],
         'dtype': [np.float64, np.float32, 'longdouble', 'f4', int], 'seed': [None, 1, [1, 2], 2 ** 200, np.random.SeedSequence(3), np.arange(700), 'x', -1], 'key': [None, 1, 2 ** 64, [1, 2], np.arange(4, dtype=np.uint64)],
         'counter': [None, 1, 2 ** 200, [1, 2], True, False], 'delta': [0, 1, -1, 2 ** 64, 2 ** 127, 2 ** 300, -2 ** 300], 'df': [1, 3, 5.5, [3, 4], 0, -1, np.arange(1, 4), 2 ** 30], 'dim': [1, 2, 3, 0, -1, 2 ** 40],
         'scale': cov, 'cov': cov, 'gamma': cov + [1., [1, 2]], 'relation': cov + [0, .5, None], 'mean': [[0, 0], np.zeros(3), np.zeros((3, 2)), 0, [np.nan, 0]], 'loc': [0, [0, 0], np.zeros((3, 2)), 1j],
         'bits': [8, 16, 32, 64, 1, 0, -1, 128], 'method': ['svd', 'eigh', 'cholesky', 'factor', 'x'], 'check_valid': ['raise', 'warn', 'ignore', 'x'], 'rank': [None, 0, 1, 2, 3, -1], 'tol': [1e-8, 0, -1, np.nan],
         'n_words': [0, 1, 4, 100, -1, 2 ** 40], 'n_children': [0, 1, 3, -1, 1.5], 'n': [0, 1, 5, -1, 2 ** 40], 'pool_size': [4, 6, 8, 0, 3, -1, 2 ** 40], 'spawn_key': [(), (1,), (2 ** 70,), [1, 'x']], 'source': ['system', 'fallback', 'x'], 'entropy': [None, 1, [1, 2], 2 ** 900, 'x'],
         'iter': [1, 2, 3, 0, -1], 'variant': ['xsl-rr', 'dxsm', 32, 64, 'quad', 'trio', 'x'], 'state': [c.make(1).state for c in (CFGS['PCG64DXSM'], CFGS['SFMT'])], 'rounds': [1, 2, 8, 20, 0, -2, 34, 100], 'retries': [0, 1, 10, -1, 2 ** 40],
         'inc': [None, 1, 2 ** 127], 'number': [2, 4, 3, 0], 'width': [32, 64, 16], 'idx': [None, 0, 2 ** 32 - 1], 'p': [None, 5, 63, 64, -1], 'q': [None, 5, 63, 64], 'r': [None, 0, 5, 64], 'seed_size': [1, 2, 3, 0, 4],
         'w': [1, 2 ** 64 - 1], 'k': [1, 3], 'b': [1, 3], 'multiplier': [5, 2 ** 127 + 1], 'mode': [None, 'sequence', 'legacy', 'numpy', 'x'], 'bit_generator': [rg.JSF(1), rg.SFMT(1)]}
    return R.choice(d.get(n, [0, 1, 3]))


def bounded(name, a, kw):
    """no call may be asked for unbounded work"""
    flat = []

    def walk(x, depth=0):
        if isinstance(x, (int, np.integer)):
            flat.append(abs(int(x)))
        elif isinstance(x, (float, np.floating)):
            flat.append(abs(float(x)) if x == x and abs(x) != float('inf') else 0)
        elif isinstance(x, (list, tuple)) and depth < 2 and len(x) < 50:
            for y in x:
                walk(y, depth + 1)
    for x in list(a) + list(kw.values()):
        walk(x)
    big = max(flat, default=0)
    if name in SLOW or name in ('spawn', 'jumped'):
        return big <= 40 and not any(isinstance(x, Odd) for x in list(a) + list(kw.values()))
    if any(isinstance(x, (memoryview, bytearray)) for x in list(a) + list(kw.values())) and (name == 'random_raw' or 'size' in kw):
        return False                # the product of its bytes is asked for
    if name == 'random_raw' or 'spawn' in name:
        return big <= 2000 or big < 2 ** 44 and len(a) < 2 and 'output' not in kw
    if 'wishart' in name or 'multivariate' in name:
        return big <= 2000 or not any(0 in (x if isinstance(x, tuple) else (x,)) for x in list(a) + list(kw.values()) if isinstance(x, (int, tuple)))
    return True


def roots(R):
    k = R.randrange(12)
    if k < 6:
        return CFGS[R.choice(list(CFGS))].make(R.randrange(99))
    if k == 6:
        return rg.ExtendedGenerator(CFGS[R.choice([c for c in CFGS if c not in WEAK])].make(3))
    if k == 7:
        return R.choice([randomgen._seed_sequence.SeedSequence, randomgen.seed_sequence.SeedSequence])(5, spawn_key=(1, 2))
    if k == 8:
        return R.choice([randomgen.entropy, randomgen._seed_sequence.SeedlessSeedSequence(), randomgen.wrapper])
    if k == 9:
        f = R.choice([lambda: 7, lambda *a: 7, lambda v: R.getrandbits(64)])
        return randomgen.wrapper.UserBitGenerator(f, R.choice([64, 32]))
    if k == 10:
        try:
            return rg.RDRAND()
        except Exception:
            return rg.PCG32(1)
    return rg


def publics(o):
    if inspect.ismodule(o):
        return [n for n in dir(o) if not n.startswith('_') and callable(getattr(o, n, None)) and n not in ('test', 'pytest', 'main')]
    return names(o)


def fuzz(i):
    def run(t):
        R = t.rng
        o = roots(R)
        log = []
        live = [o]
        for step in range(40):
            o = R.choice(live)
            ns = publics(o)
            if not ns:
                continue
            n = R.choice(ns)
            what = type(o).__name__ if not inspect.ismodule(o) else o.__name__
            t.evals += 1
            try:
                if not inspect.ismodule(o) and R.random() < .12:
                    v = value(R)
                    log.append(f'{what}.{n} = {str(v)[:20]}')
                    if n in ('lock', '_lock', 'state') or not n.startswith('__'):
                        setattr(o, n, v)
                    r = None
                else:
                    f = getattr(o, n)
                    if callable(f):
                        a, kw = args_for(f, n, R)
                        if not bounded(n, a, kw):
                            continue
                        if n == 'test' or n.startswith('__') and n not in ('__reduce__', '__reduce_ex__', '__getstate__', '__setstate__', '__copy__', '__deepcopy__', '__repr__', '__str__', '__eq__', '__hash__', '__ne__', '__lt__', '__format__'):
                            continue
                        log.append(f'{what}.{n}({", ".join(str(x)[:20] for x in a)}{kw if kw else ""})'[:120])
                        r = f(*a, **kw)
                    else:
                        r = f
                ok = True
            except (Exception, SystemExit) as e:
                ok = type(e).__name__
                r = None
            t.hit('call', what, n, ok)
            if r is not None and len(live) < 6 and (type(r).__module__ or '').startswith('randomgen') and not hasattr(r, 'acquire'):
                live.append(r)
        for o in live:
            if isinstance(o, tuple(c.cls for c in CFGS.values())):
                use(o, CFGS['PCG64DXSM'], R, hard=False)
        t.note(' ; '.join(log[:12]))
        t.obs(len(log))
    return run


def lifetimes(i):
    """objects that outlive their owners, cycles, subclasses, deletion during use"""
    def run(t):
        R = t.rng
        cfg = CFGS[R.choice(list(CFGS))]
        if cfg.name in WEAK:
            cfg = CFGS['PCG64DXSM']

        class Sub(cfg.cls):
            pass
        b = Sub(3, **cfg.kw)
        b.me = b
        g, e = np.random.Generator(b), rg.ExtendedGenerator(b)
        arrs = [b.random_raw(50), e.random(50), e.uintegers(50, bits=32)]
        st = b.state
        cap = b.capsule
        it = R.choice([b.ctypes, b.cffi])
        f = R.choice([it.next_uint64, it.next_uint32, it.next_double])
        f(it.state)
        # Generators keep the generator alive, arrays and states keep nothing of it
        del b, it, f, cap
        gc.collect()
        for k in range(20):
            g.random(), e.random(), e.uintegers(9, bits=64), g.standard_normal(), e.multivariate_normal(np.zeros(2), np.eye(2)), e.complex_normal(0, 1, .3, size=3)
        s2 = g.bit_generator.state
        del g, e
        gc.collect()
        junk = [cfg.make(k) for k in range(20)]
        for a in arrs:
            a.sum(), a.copy()
        canon(st), canon(s2)
        c = Sub(1, **cfg.kw)
        c.state = s2
        c.random_raw(70)
        # dropping while another thread draws
        x = [cfg.make(5) for _ in range(8)]
        stop = []

        def work():
            k = 0
            while not stop:
                try:
                    x[k % 8].random_raw(300)
                except Exception:
                    pass
                k += 1
        th = threading.Thread(target=work)
        th.start()
        for k in range(150):
            x[R.randrange(8)] = cfg.make(k)
            if k % 50 == 0:
                gc.collect(0)
        stop.append(1)
        th.join()
        t.evals += 1
        t.hit('lifetime', cfg.name)
        del junk
        t.note(f'{cfg.name}: owners dropped in every order, also while another thread draws')
    return run


STALE = '''
import numpy as np, randomgen as rg
b = rg.JSF(3, size=32)
g = np.random.Generator(b)
b.state = rg.JSF(4).state
g.random(4)
'''


def stale(t):
    """the known stale function table (see P08) makes the 32-bit step run on the 64-bit rotation counts"""
    p = subprocess.run([sys.executable, '-c', STALE], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    t.hit('stale')
    t.check(p.returncode == 0, f'stale-jsf:{"shift" if "jsf.h" in p.stderr and "shift exponent" in p.stderr else p.returncode}', p.stderr[-600:], stop=False)


def digest(i):
    """the same program in two differently built processes whose fresh stack and heap memory have different contents"""
    def run(t):
        out = []
        base = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'ASAN_OPTIONS', 'UBSAN_OPTIONS', 'PYTHONMALLOC')}
        home = os.environ['VERIF_HOME']

        def path(tree):
            return os.pathsep.join([tree, os.path.join(home, 'lib'), home])
        runs = [('plain, heap 0x00', dict(base, PYTHONPATH=path(os.environ['VERIF_TREE_PLAIN']), MALLOC_PERTURB_='255', PYTHONMALLOC='malloc')),
                ('plain, heap 0x5a', dict(base, PYTHONPATH=path(os.environ['VERIF_TREE_PLAIN']), MALLOC_PERTURB_='165', PYTHONMALLOC='malloc')),
                ('sanitized, heap 0xcd, stack pattern', dict(os.environ, ASAN_OPTIONS=os.environ['ASAN_OPTIONS'] + ':max_malloc_fill_size=1000000:malloc_fill_byte=205'))]
        seed = t.rng.getrandbits(30)
        for what, env in runs:
            p = subprocess.run([sys.executable, os.path.join(home, 'lib', 'digest.py'), str(seed), str(i), '40'], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            t.check(p.returncode == 0, f'crash-digest:{p.returncode}', f'{what}: ended with {p.returncode}: {p.stderr[-1500:]}')
            out.append([json.loads(x) for x in p.stdout.splitlines()])
        for (what, _), o in zip(runs[1:], out[1:]):
            t.check(len(o) == len(out[0]), 'uninitialised:length', f'{what}: {len(o)} steps against {len(out[0])}')
            for k, (x, y) in enumerate(zip(out[0], o)):
                t.check(x == y, f'uninitialised:{x[0]}', f'step {k} {x[0]}: the result depends on the content of fresh memory ({what})', sig=('digest', x[0]))
        t.obs(len(out[0]))
        t.note(f'{len(out[0])} results equal under three contents of fresh memory')
    return run


def cases(ctx):
    R = random.Random(f'{ctx.seed}/borrow')
    yield 'stale/jsf', stale
    for i in range(ctx.n(6, 40)):
        yield f'digest/{i}', digest(i)
    for nme in CFGS:
        for i in range(ctx.n(4, 60)):
            yield f'state/{nme}/{i}', states(CFGS[nme], i)
    for i in range(ctx.n(400, 8000)):
        yield f'fuzz/{i}', fuzz(i)
    for i in range(ctx.n(24, 300)):
        yield f'lifetime/{i}', lifetimes(i)
    done = set()
    for modn, fams, q, th in BORROW:
        mod = importlib.import_module('checks.' + modn)
        cs = [c for c in mod.cases(ctx) if fams is None or c[0].split('/')[0] in fams]
        R.shuffle(cs)
        by = {}
        for c in cs:
            by.setdefault(c[0].split('/')[0], []).append(c)
        # every family in turn, so that small families are not crowded out
        take, k = [], 0
        while len(take) < min(ctx.n(q, th), len(cs)):
            for f in by.values():
                if k < len(f):
                    take.append(f[k])
            k += 1
        for name, fn in take[:ctx.n(q, th)]:
            if (modn, name) not in done:
                done.add((modn, name))
                yield f'{modn}-{name}', borrow(fn, name, modn)
