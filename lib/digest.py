"""digest.py SEED VARIANT STEPS: a deterministic program over the public interface; one JSON line (what, digest) per step."""
import hashlib
import json
import random
import sys
import threading
import warnings
warnings.simplefilter('ignore')
sys.path.insert(0, __file__.rsplit('/lib/', 1)[0])
from checks.common import *  # noqa
from hist import *  # noqa
import pickle
import randomgen._seed_sequence as own
from randomgen.entropy import seed_by_array


def h(x):
    return hashlib.blake2b(repr(canon(x)).encode(), digest_size=10).hexdigest()


def main():
    seed, variant, steps = map(int, sys.argv[1:4])
    names = list(CFGS)
    n = 0
    for k, nm in enumerate(names):
        if k % 6 != variant % 6:
            continue
        cfg = CFGS[nm]
        R = random.Random(f'{seed}/{nm}')

        def say(what, f):
            try:
                r = h(f())
            except Exception as e:
                r = type(e).__name__
            print(json.dumps([f'{nm}:{what}', r]))
        b = edgy(R, cfg)
        say('state of a new one', lambda: live(b.state))
        say('whole state of a new one', lambda: b.state)
        for _ in range(steps // 4):
            say('draws', lambda: future(b, ops_string(R, 30)))
            say('state', lambda: b.state)
            if cfg.advance:
                say('advance', lambda: (advance(b, cfg, R.getrandbits(60)), b.state)[1])
                say('draws after advance', lambda: future(b, ops_string(R, 12)))
            if hasattr(b, 'jumped') and cfg.cls not in (rg.MT19937, rg.SFMT, rg.DSFMT):
                say('jumped', lambda: (lambda j: (j.state, j.random_raw(5)))(b.jumped()))
            say('raw', lambda: b.random_raw(R.choice([1, 5, 700])))
            say('pickle', lambda: pickle.loads(pickle.dumps(b)).state)
            s = hostile_seed(R)
            say('seeded', lambda: (b.seed(s, **({'idx': cfg.kw['idx']} if 'idx' in cfg.kw else {})), b.state)[1])
        if hasattr(b, 'jumped') and cfg.cls in (rg.MT19937, rg.SFMT, rg.DSFMT):
            say('jumped', lambda: (lambda j: (j.state, j.random_raw(700)))(b.jumped()))
        if nm in WEAK:
            continue
        e = rg.ExtendedGenerator(b)
        A = np.array([[2, .5, .1], [.5, 1, .2], [.1, .2, 3]])
        for meth in ('svd', 'eigh', 'cholesky'):
            say('mvn ' + meth, lambda: e.multivariate_normal([0, 1, 2], A, size=3, method=meth).round(9))
        say('mvcn', lambda: e.multivariate_complex_normal([0, 1, 2], A, A * .1, size=3).round(9))
        say('cn', lambda: e.complex_normal([0, 1], [1, 2], [.1, .2j]).round(12))
        say('wishart', lambda: e.wishart([5, 6], A).round(7))
        say('std wishart', lambda: e.standard_wishart(2, 3, 4, rescale=False).round(7))
        for dt in ('f8', 'f4', 'longdouble'):
            say('random ' + dt, lambda: e.random((3, 5), dtype=dt).astype(float))
            o = np.zeros((4, 3), dtype=dt, order=R.choice('CF'))
            say('random out ' + dt, lambda: (e.random(out=o, dtype=dt), o.astype(float))[1])
        say('uintegers', lambda: (e.uintegers(7, bits=32), e.uintegers((3, 2), bits=64)))
    R = random.Random(f'{seed}/seq/{variant}')
    for _ in range(40):
        ent = R.choice([hostile_seed(R), [R.getrandbits(40) for _ in range(R.randrange(1, 20))], 'abcdef'])
        for C in (own.SeedSequence,):
            def go():
                s = C(ent, spawn_key=tuple(R.getrandbits(33) for _ in range(R.randrange(4))), pool_size=R.choice([4, 5, 8]))
                return [s.generate_state(R.randrange(1, 30), np.uint32), s.spawn(2)[1].generate_state(3, np.uint64), s.pool]
            try:
                r = h(go())
            except Exception as ex:
                r = type(ex).__name__
            print(json.dumps(['seed sequence', r]))
        try:
            r = h(seed_by_array(np.array([R.getrandbits(64) for _ in range(R.randrange(1, 9))], dtype=np.uint64), R.randrange(1, 20)))
        except Exception as ex:
            r = type(ex).__name__
        print(json.dumps(['seed_by_array', r]))


main()
