"""Child of P10/P11: threads over one generator (shared) or over generators of their own (own), run under ThreadSanitizer.
race.py MODE SEED ROUNDS CONFIG..."""
import collections
import json
import os
import pickle
import random
import sys
import threading
import numpy as np
import randomgen as rg
from randomgen.entropy import random_entropy, seed_by_array
from configs import CFGS

mode, seed, rounds = sys.argv[1], sys.argv[2], int(sys.argv[3])
sys.setswitchinterval(1e-5)
COV = np.array([[2., .5, 0], [.5, 1, .2], [0, .2, 3]])
WEAK = ('Squares',)
done = collections.Counter()
errs = collections.Counter()


def uniform(b, e, g):
    """operations taking a size; none of them loops over rejected values of a weak generator for long"""
    return {
        'raw': lambda n: b.random_raw(n), 'discard': lambda n: b.random_raw(n, output=False), 'raw1': lambda n: b.random_raw(),
        'rand': lambda n: e.random(n), 'randf': lambda n: e.random(n, dtype=np.float32),
        'randl': lambda n: e.random(n, dtype=np.longdouble), 'rand1': lambda n: e.random(),
        'randf1': lambda n: e.random(dtype=np.float32), 'randl1': lambda n: e.random(dtype=np.longdouble),
        'out': lambda n: e.random(out=np.empty(n)), 'outf': lambda n: e.random(out=np.empty(n, np.float32), dtype=np.float32),
        'u32': lambda n: e.uintegers(n, bits=32), 'u64': lambda n: e.uintegers(n, bits=64),
        'u32s': lambda n: e.uintegers(bits=32), 'u64s': lambda n: e.uintegers(bits=64),
        'np': lambda n: g.random(n), 'npf': lambda n: g.random(n, dtype=np.float32), 'npi': lambda n: g.integers(0, 1 << 20, n),
    }


def dists(b, e, g):
    return {
        'npn': lambda n: g.standard_normal(n), 'npn1': lambda n: g.standard_normal(), 'npg': lambda n: g.standard_gamma(2., n),
        'cn': lambda n: e.complex_normal(1, 2, .5j, n), 'cna': lambda n: e.complex_normal([1, 2], 2, .5j), 'cn1': lambda n: e.complex_normal(),
        'mvn': lambda n: e.multivariate_normal(np.zeros(3), COV, n), 'mcn': lambda n: e.multivariate_complex_normal([1, 2], np.eye(2), size=n),
        'sw': lambda n: e.standard_wishart(5, 3, n), 'sws': lambda n: e.standard_wishart(2, 4, n), 'wi': lambda n: e.wishart(5, COV, n),
        'wis': lambda n: e.wishart(2, COV), 'wib': lambda n: e.wishart([5, 2], COV),
    }


def held(b):
    """operations that the caller makes while holding the generator's lock"""
    def under(f):
        def run(n):
            with b.lock:
                return f(n)
        return run

    def restore(n):
        b.state = b.state

    def reseed(n):
        b.seed(n)
    d = {'state': lambda n: b.state, 'restore': restore, 'pickle': lambda n: pickle.loads(pickle.dumps(b)), 'reseed': reseed,
         'ctypes': lambda n: [b.ctypes.next_uint64(b.ctypes.state) for _ in range(5)],
         'cffi': lambda n: [b.cffi.next_double(b.cffi.state) for _ in range(5)]}
    if hasattr(b, 'advance'):
        d['advance'] = lambda n: b.advance(n)
    return {k: under(f) for k, f in d.items()}


def common(c):
    """operations on no generator in particular"""
    d = {'entropy': lambda n: random_entropy(n % 9), 'fallback': lambda n: random_entropy(n % 9, 'fallback'),
         'expand': lambda n: seed_by_array([n, 7], 1 + n % 9),
         'seedseq': lambda n: rg.SeedSequence(n).spawn(2)[1].generate_state(5)}
    name = c.cls.__name__
    if name == 'SFC64':
        d['weyl'] = lambda n: c.make(n).weyl_increments(3, 20, 40)
    if name == 'Squares':
        from randomgen import squares
        d['keys'] = lambda n: squares.generate_keys(n, 3)
    return d


def ops(c, b):
    e, g = rg.ExtendedGenerator(b), np.random.Generator(b)
    d = uniform(b, e, g)
    if not c.name.startswith(WEAK):
        d.update(dists(b, e, g))
    d.update(held(b))
    return d


def call(f, k, n):
    try:
        f[k](n)
        done[k] += 1
    except (NotImplementedError, ValueError, TypeError, RuntimeError, AttributeError) as ex:
        errs[f'{k}: {type(ex).__name__}'] += 1


for name in sys.argv[4:]:
    c = CFGS[name]
    os.write(2, f'@@ {name}\n'.encode())
    shared = c.make(3) if mode == 'shared' else None

    def work(k):
        r = random.Random(f'{seed}/{name}/{k}')
        b = shared or c.make(k)
        f = ops(c, b)
        if mode == 'own':
            f.update(common(c))
        bar.wait()
        for _ in range(rounds):
            call(f, r.choice(list(f)), r.choice([1, 3, 40, 700]))
            if mode == 'own' and r.random() < .15:
                b = r.choice([lambda: c.make(r.randrange(99)), lambda: pickle.loads(pickle.dumps(b)),
                              lambda: b.jumped() if hasattr(b, 'jumped') and 'PCG64DXSM' not in name else c.make(5)])()
                f = ops(c, b)
                f.update(common(c))
                done['made'] += 1
    bar = threading.Barrier(4)
    ths = [threading.Thread(target=work, args=(k,)) for k in range(4)]
    for th in ths:
        th.start()
    for th in ths:
        th.join()
print(json.dumps({'done': done, 'errs': errs}))
