"""P21: repeated use leaks nothing. Deciding monitors: bytes in use in the C heap (every Python allocation goes there too, without caches
in between), the population of garbage-collected objects, reference counts of shared and of user-supplied objects, descriptors, threads."""
import copy
import ctypes
import gc
import importlib
import io
import os
import pickle
import sys
import threading
import warnings
import weakref
from checks.common import *
from hist import *
from core import T as Case, equal, diff
import checks.p01 as p01
import checks.p19 as p19
import checks.p20 as p20
import randomgen._seed_sequence
import randomgen.broadcasting
import randomgen.entropy
import randomgen.seed_sequence
import randomgen.wrapper
from randomgen.wrapper import UserBitGenerator


_heap = ctypes.CDLL(os.environ['VERIF_PRELOAD'])
_read = _heap.vp_heap
_before, _after = (ctypes.c_long * 3)(), (ctypes.c_long * 3)()


# built-in dtypes are left out: NumPy 2.1 itself loses a reference to float64 with every scalar it makes
SHARED = [np.ndarray, np.random.SeedSequence, np.random.bit_generator.ISeedSequence, np.random.Generator, np.random.bit_generator.BitGenerator, np, os, threading.Lock, warnings, rg,
          rg.ExtendedGenerator, np.array, np.uint64, np.uint32, np.empty, np.asarray, randomgen.entropy, randomgen.wrapper, randomgen.common, randomgen.broadcasting,
          randomgen.seed_sequence.SeedSequence, randomgen._seed_sequence.SeedSequence, UserBitGenerator]
SHARED += list({c.cls: 1 for c in CFGS.values()})
SHARED += [np.linalg, np.linalg.svd, np.linalg.cholesky, np.linalg.eigh, np.ma.masked, type(CFGS['SFC64'].make(1).lock)]


def refs():
    return [sys.getrefcount(x) for x in SHARED]


def fds():
    return sorted(os.listdir('/proc/self/fd'))


def settle():
    gc.collect()
    sys._clear_type_cache()         # it keeps names that were looked up


def window(op, n, watched=()):
    """blocks, bytes, collected objects and reference counts gained in n repetitions"""
    settle()
    r0 = refs() + [sys.getrefcount(x) for x in watched]
    o0 = len(gc.get_objects())
    it = iter(range(n))
    f = sys._getframe()
    while f:                        # exceptions make frame objects of the callers: let them exist beforehand
        f = f.f_back
    _read(_before)
    for _ in it:
        op()
    settle()
    _read(_after)
    o1 = len(gc.get_objects())
    r1 = refs() + [sys.getrefcount(x) for x in watched]
    return [_after[0] - _before[0] - BIAS[0], _after[1] - _before[1] - BIAS[1], o1 - o0] + [b - a for a, b in zip(r0, r1)]


BIAS = [0, 0]


def calibrate():
    """what the window itself holds while it is open"""
    BIAS[:] = [0, 0]
    ws = [window(lambda: None, 8) for _ in range(9)]
    BIAS[:] = [sorted(w[i] for w in ws)[4] for i in (0, 1)]


def quiet(op):
    def run():
        try:
            op()
        except Exception:
            pass
    return run


def steady(t, op, key, what, n=8, warm=3, watched=(), sig=None, wrap=True):
    """repeating the operation must not make anything grow: growth in every one of several windows is a leak"""
    if wrap:
        op = quiet(op)
    f0, th0 = fds(), threading.active_count()
    for _ in range(warm):
        op()
    ws = [window(op, n, watched)]
    k = n
    for rnd in range(7):
        # a window without any change settles it; otherwise look again, longer
        sus = [i for i in range(len(ws[0])) if all(w[i] > 0 for w in ws) or i > 2 and all(w[i] < 0 for w in ws)]
        if not sus:
            break
        k = n * (1, 1, 1, 2, 2, 6, 12)[rnd]
        ws.append(window(op, k, watched))
    else:
        sus = [i for i in range(len(ws[0])) if all(w[i] > 0 for w in ws) or i > 2 and all(w[i] < 0 for w in ws)]
        sus = [i for i in sus if abs(ws[-1][i]) >= (4, 64, 4)[min(i, 2)]]
    t.evals += 1
    t.obs(warm + n * len(ws))
    if sig:
        t.hit(*sig)
    if sus:
        i = sus[0]
        name = 'live memory blocks' if i == 0 else 'bytes in use' if i == 1 else 'collected objects' if i == 2 else f'reference to {str((SHARED + list(watched))[i - 3])[:60]}'
        t.check(False, f'leak:{key}', f'{what}: {name} grew in every window of {n}..{k} repetitions: {[w[i] for w in ws]}', stop=False)
    f1 = fds()
    t.check(f1 == f0, f'descriptors:{key}', f'{what}: descriptors before {f0} after {f1}', stop=False)
    t.check(threading.active_count() == th0, f'threads:{key}', f'{what}: threads {th0} -> {threading.active_count()}', stop=False)


# ---------------------------------------------------------------------------------------------------------------- whole lives
HEAVYJUMP = (rg.MT19937, rg.SFMT, rg.DSFMT)


def life_ops(cfg, R):
    """(name, operation): an object is made, used and dropped"""
    s = hostile_seed(R)
    make = cfg.make
    n = block_words(cfg) + 5
    st = make(3).state
    blob = pickle.dumps(make(3))
    ss = np.random.SeedSequence(7)
    ops = [('construct', lambda: make(s)), ('construct-none', lambda: make()), ('construct-array', lambda: make(np.arange(5, dtype=np.uint64))),
           ('construct-list', lambda: make([1, 2 ** 40, 3])), ('construct-seq', lambda: make(np.random.SeedSequence(s))), ('construct-sharedseq', lambda: make(ss)),
           ('construct-ownseq', lambda: make(randomgen._seed_sequence.SeedSequence(s))), ('draw', lambda: make(1).random_raw(n)), ('discard', lambda: make(1).random_raw(n, False)),
           ('scalar', lambda: [make(1).random_raw() for _ in range(3)]), ('draw2', lambda: make(1).random_raw((3, 4))), ('draw0', lambda: make(1).random_raw(0)),
           ('pickle', lambda: pickle.loads(pickle.dumps(make(s)))), ('unpickle', lambda: pickle.loads(blob)), ('copy', lambda: copy.copy(make(s))), ('deepcopy', lambda: copy.deepcopy(make(s))),
           ('state', lambda: make(1).state), ('setstate', lambda: setattr(make(1), 'state', st)), ('__setstate__', lambda: make(1).__setstate__(st)),
           ('ctypes', lambda: make(1).ctypes), ('ctypes-call', lambda: view64(make(1))), ('cffi', lambda: make(1).cffi), ('cffi-twice', lambda: twice(make(1))), ('capsule', lambda: make(1).capsule),
           ('lock', lambda: locked(make(1))), ('generator', lambda: np.random.Generator(make(1)).standard_normal(5)), ('generator-f32', lambda: np.random.Generator(make(1)).random(7, dtype=np.float32)),
           ('randomstate', lambda: np.random.RandomState(make(1)).normal(size=3)), ('repr', lambda: repr(make(1))), ('seed', lambda: make(1).seed(s)), ('seed-none', lambda: make(1).seed()),
           ('extended', lambda: extended(make(1))), ('cycle', lambda: cycle(cfg)), ('spawn', lambda: make(5).seed_seq.spawn(3)), ('benchmark', lambda: make(1)._benchmark(50)),
           ('seedless', lambda: make(randomgen._seed_sequence.SeedlessSeedSequence()))]
    if cfg.keyed:
        ops += [('keyed', lambda: cfg.make_keyed(key_of(cfg, R))), ('key-array', lambda: cfg.cls(key=np.array([1, 2, 3, 5], dtype=np.uint64)[:max(1, cfg.key_bits // 64)], **cfg.kw)),
                ('key-list', lambda: cfg.cls(key=[1] * max(1, cfg.key_bits // 64), **cfg.kw)), ('reseed-key', lambda: make(1).seed(key=5))]
        if cfg.ctr_bits:
            ops += [('counter', lambda: cfg.make_keyed(5, 2 ** 60)), ('counter-list', lambda: cfg.cls(key=5, counter=[1, 2], **cfg.kw))]
    if cfg.advance:
        ops += [('advance', lambda: make(1).advance(5)), ('advance-big', lambda: make(1).advance(2 ** 100 + 7)), ('advance-neg', lambda: make(1).advance(-5)), ('advance-np', lambda: make(1).advance(np.uint64(2 ** 63)))]
    if hasattr(cfg.cls, 'jumped'):
        j = [('jumped', lambda: make(1).jumped()), ('jumped2', lambda: make(1).jumped(2))]
        if hasattr(cfg.cls, 'jump') and cfg.cls is not rg.PCG64:
            j += [('jump', lambda: make(1).jump())]
        ops += j if cfg.cls not in HEAVYJUMP else [('jumped', lambda: make(1).jumped())]
    if hasattr(cfg.cls, 'use_sse2') or hasattr(cfg.cls, 'use_aesni'):
        a = 'use_sse2' if hasattr(cfg.cls, 'use_sse2') else 'use_aesni'
        ops.append((a, lambda: setattr(make(1), a, getattr(make(1), a))))
    return ops


def twice(b):
    x, y = b.cffi, b.ctypes
    assert b.cffi is x and b.ctypes is y
    x.next_uint64(x.state)
    y.next_double(y.state)
    view32(b)


def locked(b):
    with b.lock:
        b.state


def cycle(cfg):
    class Sub(cfg.cls):
        pass
    b = Sub(3, **cfg.kw)
    b.me = b
    b.g = [rg.ExtendedGenerator(b), np.random.Generator(b), b.cffi]
    b.g.append(b.g)


def extended(b):
    e = rg.ExtendedGenerator(b)
    e.random(5), e.uintegers(6, bits=32), e.state, repr(e), str(e)
    e.state = e.state
    pickle.loads(pickle.dumps(e))
    copy.deepcopy(e)


def life(cfg, i):
    def run(t):
        R = t.rng
        ops = life_ops(cfg, R)
        for name, op in ops:
            slow = cfg.cls in HEAVYJUMP and name == 'jumped'
            if slow and i:
                continue
            steady(t, op, f'life:{name}', f'{cfg.name} {name}', n=3 if slow else 6, warm=2, sig=('life', cfg.name, name))
        t.note(f'{cfg.name}: {len(ops)} ways to make, use and drop')
    return run


def held(cfg, i):
    """one generator lives on while it is used again and again; refused uses included"""
    def run(t):
        R = t.rng
        b = cfg.make(5)
        g, e = np.random.Generator(b), rg.ExtendedGenerator(b) if cfg.name not in WEAK else None
        st = b.state
        n = block_words(cfg)
        ps = list(p19.leaves(st))
        ops = [('draws', lambda: b.random_raw(n)), ('state', lambda: b.state), ('setstate', lambda: setattr(b, 'state', st)), ('seed', lambda: b.seed(R.getrandbits(99))), ('seed-none', lambda: b.seed()),
               ('pickle', lambda: pickle.dumps(b)), ('interfaces', lambda: (b.ctypes, b.cffi, b.capsule)), ('generator', lambda: (g.random(3), g.standard_gamma(2.5, 3), g.permutation(9), g.bytes(7))),
               ('wrap', lambda: (np.random.Generator(b), np.random.RandomState(b), rg.ExtendedGenerator(b))), ('mixed', lambda: mixed(b, R, 30))]
        if e is not None:
            ops.append(('extended', lambda: (e.random(4), e.uintegers(5, bits=16), e.complex_normal(size=2))))
        if cfg.advance:
            ops.append(('advance', lambda: advance(b, cfg, R.getrandbits(130))))
        if hasattr(cfg.cls, 'jumped') and cfg.cls not in HEAVYJUMP:
            ops.append(('jumped', lambda: b.jumped(R.randint(0, 3)).random_raw(2)))
        # refused
        for s in R.sample(p19.SEEDS, 5):
            ops.append((f'bad-seed:{str(s)[:12]}', lambda s=s: b.seed(s)))
            ops.append((f'bad-construct:{str(s)[:12]}', lambda s=s: cfg.make(s)))
        for k in range(4):
            ops.append((f'faulty-seq{k}', lambda k=k: b.seed(p19.Faulty(k))))
            ops.append((f'faulty-seq-construct{k}', lambda k=k: cfg.make(p19.Faulty(k))))
        for nme in ('key', 'counter', 'inc', 'rounds', 'number', 'width', 'variant', 'mode', 'idx', 'rotate', 'p', 'q', 'r', 'seed_size', 'size', 'w', 'k', 'b', 'multiplier', 'output', 'post'):
            v = R.choice(p19.VALS)
            ops.append((f'bad-{nme}', lambda nme=nme, v=v: cfg.cls(1, **dict(cfg.kw, **{nme: v})) if nme not in ('key', 'counter') else cfg.cls(**dict(cfg.kw, **{nme: v}))))
            if nme in ('key', 'counter', 'inc', 'idx'):
                ops.append((f'bad-seed-{nme}', lambda nme=nme, v=v: b.seed(**{nme: v})))
        for _ in range(12):
            p = R.choice(ps)
            v = R.choice(p19.mutants(p19.get(st, p), R))
            d = p19.put(st, p, v)
            ops.append((f'bad-state:{"/".join(p)}', lambda d=d: setattr(b, 'state', d)))
        ops += [('bad-state', lambda: setattr(b, 'state', 5)), ('bad-state2', lambda: setattr(b, 'state', {})), ('bad-size', lambda: b.random_raw(-1)), ('bad-size2', lambda: b.random_raw('x')),
                ('bad-size3', lambda: b.random_raw((2, -3))), ('bad-out', lambda: b.random_raw(3, R)), ('bad-advance', lambda: b.advance('x')), ('bad-advance2', lambda: b.advance(1.5)),
                ('bad-jump', lambda: b.jumped('x')), ('bad-jump2', lambda: b.jumped(-1)), ('bad-jump3', lambda: b.jumped(1.5)), ('foreign', lambda: setattr(b, 'state', np.random.MT19937(1).state)),
                ('bad-pickle', lambda: b.__setstate__(None)), ('bad-reduce', lambda: type(b).__reduce__(5)), ('bad-generator', lambda: np.random.Generator(b.state)), ('bad-extended', lambda: rg.ExtendedGenerator(b.capsule)),
                ('bad-extended2', lambda: rg.ExtendedGenerator(b.state))]
        # one object that lives through all of them, in every order
        R.shuffle(ops)
        lim = 26 if i else len(ops)
        for name, op in ops[:lim]:
            steady(t, op, f'held:{name.split(":")[0]}', f'{cfg.name} {name}', n=6, warm=2, watched=(b, st, g, e, b.lock) if e else (b, st, g, b.lock), sig=('held', cfg.name, name))
            b.state = st            # a hostile state that was accepted may stall rejection samplers
        del ops
        t.note(f'{cfg.name}: {lim} operations repeated on one generator')
    return run


# ------------------------------------------------------------------------------------------------------ objects supplied by the user
class Arr(np.ndarray):
    pass


class Lst(list):
    pass


class Canary:
    pass


class Big(int):
    """integers cannot be referred to weakly: what they carry can"""

    def __new__(cls, v):
        o = int.__new__(cls, v)
        o.canary = Canary()
        return o


def ref(o):
    return weakref.ref(o.canary if isinstance(o, Big) else o)


class Dct(dict):
    pass


class Fun:
    def __init__(self, v=7, boom=None):
        self.v, self.boom = v, boom

    def __call__(self, *a):
        if self.boom:
            raise self.boom
        return self.v


class Seq(p19.ISeq):
    def __init__(self, seed=3):
        self.ss = np.random.SeedSequence(seed)

    def generate_state(self, n, dtype=np.uint32):
        return self.ss.generate_state(n, dtype)


def arr(x, dt=np.uint64):
    x = np.array(x, dtype=dt)
    a = np.ndarray.__new__(Arr, x.shape, x.dtype)      # owns its memory: views of it keep it alive
    a[...] = x
    return a


def supplied(cfg, R):
    """(name, factory of a weakly referenceable object, use of it by a new generator b)"""
    words = max(1, cfg.key_bits // 64)
    seeds = [lambda: arr([1, 2, 3]), lambda: Lst([1, 2]), lambda: Big(2 ** 90), lambda: Seq(), lambda: Lst(['x']), lambda: arr([1.5], float), lambda: arr([[1, 2], [3, 4]]), lambda: Lst([1, -2])]
    out = []
    for k, s in enumerate(seeds):
        out.append((f'seed-arg{k}', s, lambda b, o: b.seed(o)))
        out.append((f'construct-arg{k}', s, lambda b, o: cfg.make(o).random_raw(3)))
    if cfg.keyed:
        for k, s in enumerate([lambda: arr([1] * words), lambda: Lst([3] * words), lambda: Big(2 ** 40 + 1), lambda: arr([1] * 40), lambda: arr([1.5] * words, float), lambda: arr([-1] * words, np.int64)]):
            out.append((f'key{k}', s, lambda b, o: cfg.cls(key=o, **cfg.kw)))
            out.append((f'reseed-key{k}', s, lambda b, o: b.seed(key=o)))
            if cfg.ctr_bits:
                out.append((f'counter{k}', s, lambda b, o: cfg.cls(key=3, counter=o, **cfg.kw)))
    for k, s in enumerate([lambda: Big(5), lambda: arr([5]), lambda: Lst([5])]):
        if cfg.advance:
            out.append((f'advance{k}', s, lambda b, o: b.advance(o)))
        out.append((f'jumped{k}', s, lambda b, o: b.jumped(o)) if cfg.cls not in HEAVYJUMP else (f'raw{k}', s, lambda b, o: b.random_raw(o)))
    st = cfg.make(9).state

    def dct():
        d = Dct(copy.deepcopy(st))
        return d
    out.append(('state', dct, lambda b, o: setattr(b, 'state', o)))
    out.append(('__setstate__', dct, lambda b, o: b.__setstate__(o)))
    for p in p19.leaves(st):
        v = p19.get(st, p)
        if isinstance(v, np.ndarray):
            out.append((f'state-array', lambda v=v: arr(v, v.dtype), lambda b, o, p=p: setattr(b, 'state', p19.put(st, p, o))))
            out.append((f'state-short-array', lambda v=v: arr(v.ravel()[:-1], v.dtype), lambda b, o, p=p: setattr(b, 'state', p19.put(st, p, o))))
        elif isinstance(v, int):
            out.append((f'state-int', lambda v=v: Big(v), lambda b, o, p=p: setattr(b, 'state', p19.put(st, p, o))))
            out.append((f'state-bad', lambda: Lst([1]), lambda b, o, p=p: setattr(b, 'state', p19.put(st, p, o))))
    out.append(('subclass', lambda: sub(cfg), lambda b, o: (o.random_raw(3), o.ctypes, o.cffi, o.capsule, np.random.Generator(o).random(), rg.ExtendedGenerator(o).random(2), o.state, pickle.dumps(o.state))))
    out.append(('size', lambda: Lst([2, 2]), lambda b, o: b.random_raw(o)))
    return out


def sub(cfg):
    class Sub(cfg.cls):
        pass
    return Sub(3, **cfg.kw)


def supply(cfg, i):
    def run(t):
        R = t.rng
        ops = supplied(cfg, R)
        b = cfg.make(1)
        for name, mk, fn in ops:
            for same in (True, False):
                # the user of the object: a generator that stays, or one that goes away
                o = mk()
                r = ref(o)
                u = b if same else cfg.make(2)
                try:
                    fn(u, o)
                    ok = True
                except Exception as e:
                    ok = type(e).__name__
                del o
                if same:
                    # the generator may keep its seed sequence until it gets another
                    if name.startswith('seed-arg'):
                        b.seed(3)
                    elif name.startswith('size'):
                        pass
                del u
                gc.collect()
                t.check(r() is None, f'kept:{name.rstrip("0123456789")}', lambda: f'{cfg.name} {name}: the object given by the user is still referred to by {[type(x).__name__ for x in gc.get_referrers(r())][:5] if r() is not None else ''}', stop=False, sig=('supply', cfg.name, name, ok, same))
                t.obs()
        t.note(f'{cfg.name}: {len(ops)} kinds of user objects released')
    return run


def wrapper(i):
    """user-defined bit generators release the callbacks, also when those raise"""
    def run(t):
        R = t.rng
        sys.unraisablehook = lambda *a: None
        kinds = ['ok', 'raise', 'type', 'range', 'dbl', 'cycle']
        for k in kinds:
            for bits in (64, 32):
                def build():
                    f = Fun(boom={'raise': RuntimeError('x')}.get(k), v={'type': 'abc', 'range': 2 ** 70}.get(k, R.getrandbits(30)))
                    g, h, d = Fun(3), Fun(4), Fun(.5)
                    if k == 'cycle':
                        f.me = f
                    u = UserBitGenerator(f, bits, g if R.random() < .5 else None, h if R.random() < .5 else None, d if R.random() < .5 else None)
                    if k == 'cycle':
                        f.u = u
                    return u, [weakref.ref(x) for x in (f,)]

                def use():
                    u, rs = build()
                    for s in (lambda: u.random_raw(3), lambda: np.random.Generator(u).random(3), lambda: rg.ExtendedGenerator(u).uintegers(4, bits=32), lambda: view32(u), lambda: u.capsule, lambda: u.state,
                              lambda: setattr(u, 'state', {}), lambda: pickle.dumps(u)):
                        try:
                            s()
                        except Exception:
                            pass
                    return rs
                rs = use()
                gc.collect()
                t.check(all(r() is None for r in rs), f'kept:callback', f'a dropped user bit generator ({k}, {bits}) keeps its callbacks', stop=False, sig=('wrapper', k, bits))
                steady(t, use, f'wrapper:{k}', f'UserBitGenerator {k} {bits} bits', n=6, sig=('wrapper', k, bits))
        for bad in (lambda: UserBitGenerator(5), lambda: UserBitGenerator(Fun(), 63), lambda: UserBitGenerator(Fun(), 64, 5), lambda: UserBitGenerator(Fun(), 64, Fun(), 'x'), lambda: UserBitGenerator(Fun(), None),
                    lambda: UserBitGenerator.from_cfunc(1, 2, 3, 4, 'x'), lambda: UserBitGenerator.from_cfunc(None, None, None, None, None), lambda: UserBitGenerator(Fun(), 64, None, None, 7)):
            steady(t, bad, 'wrapper:refused', 'a refused user bit generator', n=10)
        L = p20.clib()

        CF = [ctypes.CFUNCTYPE(r, ctypes.c_void_p) for r in (ctypes.c_uint64, ctypes.c_uint64, ctypes.c_uint32, ctypes.c_double)]

        tape = np.linspace(0, .9, 4096)

        def native(pick=(0, 0, 0, 0), bad=None):
            buf = p20.CS()
            buf.raw = buf.w64 = buf.w32 = buf.d = tape.ctypes.data
            fs = [L.c_raw, L.c_64, L.c_32, L.c_d]
            keep = []
            for j, p in enumerate(pick):
                if p:
                    f = Fun(.5 if j == 3 else 3)
                    keep.append(weakref.ref(f))
                    fs[j] = CF[j](f)
            if bad is not None:
                fs[bad] = CF[(bad + 2) % 4](Fun(1))
            g, st = Fun({'a': 1}), Fun(None)
            keep += [weakref.ref(g), weakref.ref(st)]
            u = UserBitGenerator.from_ctypes(*fs, ctypes.cast(ctypes.pointer(buf), ctypes.c_void_p), lambda: g(0), lambda v: st(v))
            np.random.Generator(u).random(5), u.random_raw(3), view32(u)
            rg.ExtendedGenerator(u).uintegers(4, bits=32)
            u.state = u.state
            return keep

        def refused_native():
            try:
                native(bad=R.randrange(4))
            except TypeError:
                pass
        for pick in ((0, 0, 0, 0), (1, 1, 1, 1), (0, 1, 0, 1), (1, 0, 0, 0)):
            keep = native(pick)
            gc.collect()
            t.check(all(r() is None for r in keep), 'kept:from_ctypes', f'a dropped generator made from ctypes functions {pick} keeps its callbacks', stop=False, sig=('wrapper', 'ctypes', pick))
            steady(t, lambda: native(pick) and None, 'wrapper:from_ctypes', f'from_ctypes {pick}', n=8)
        steady(t, refused_native, 'wrapper:from_ctypes-refused', 'a refused from_ctypes', n=8)
        t.note('user bit generators with good, raising, mistyped and cyclic callbacks')
    return run


# ---------------------------------------------------------------------------------------------------------- distributions and sources
def dists(i):
    def run(t):
        R = t.rng
        e = rg.ExtendedGenerator(CFGS['PCG64DXSM'].make(3))
        names = ['random', 'uintegers', 'multivariate_normal', 'multivariate_complex_normal', 'complex_normal', 'standard_wishart', 'wishart', 'multivariate_complex_normal', 'complex_normal']
        for _ in range(30):
            n = R.choice(names)
            f = getattr(e, n)
            a, kw = p01.args_for(f, n, R)
            if not p01.bounded(n, a, kw):
                continue
            # the arrays given are watched for references
            w = [x for x in list(a) + list(kw.values()) if isinstance(x, (np.ndarray, list, dict))]
            try:
                f(*a, **kw)
                ok = True
            except Exception as x:
                ok = type(x).__name__
            steady(t, lambda: f(*a, **kw), f'dist:{n}', f'{n}({", ".join(str(x)[:30] for x in a)} {str(kw)[:200]}) [{ok}]', n=6, watched=tuple(w), sig=('dist', n, ok, len(a), tuple(sorted(kw))))
        t.note('distribution calls, accepted and refused, repeated')
    return run


def outs(i):
    """arrays given as out= and results are released"""
    def run(t):
        R = t.rng
        b = CFGS['PCG64DXSM'].make(3)
        e = rg.ExtendedGenerator(b)
        cov = np.array([[2, .5], [.5, 1]])
        calls = [('out', lambda: arr(np.empty(4), float), lambda o: e.random(out=o)), ('out-f32', lambda: arr(np.empty(4), np.float32), lambda o: e.random(out=o, dtype=np.float32)),
                 ('out-size', lambda: arr(np.empty(4), float), lambda o: e.random(size=3, out=o)), ('out-dtype', lambda: arr(np.empty(4), float), lambda o: e.random(out=o, dtype=np.float32)),
                 ('out-ro', lambda: ro(), lambda o: e.random(out=o)), ('out-strided', lambda: arr(np.empty(8), float)[::2], lambda o: e.random(out=o)), ('out-longdouble', lambda: arr(np.empty(4), np.longdouble), lambda o: e.random(out=o, dtype='longdouble')),
                 ('mean', lambda: arr([0, 1], float), lambda o: e.multivariate_normal(o, cov)), ('cov', lambda: arr(cov, float), lambda o: e.multivariate_normal([0, 0], o)), ('cov-chol', lambda: arr(cov, float), lambda o: e.multivariate_normal([0, 0], o, method='cholesky')),
                 ('cov-bad', lambda: arr(np.ones((2, 3)), float), lambda o: e.multivariate_normal([0, 0], o)), ('cov-npd', lambda: arr([[1, 2], [2, 1]], float), lambda o: e.multivariate_normal([0, 0], o, check_valid='raise')),
                 ('loc', lambda: arr([0, 1], complex), lambda o: e.complex_normal(o)), ('gamma', lambda: arr([1, 2], float), lambda o: e.complex_normal(0, o)), ('relation', lambda: arr([.1, .2], complex), lambda o: e.complex_normal(0, 1, o)),
                 ('relation-bad', lambda: arr([5, .2], complex), lambda o: e.complex_normal(0, 1, o)), ('scale', lambda: arr(cov, float), lambda o: e.wishart(3, o)), ('scale-rank', lambda: arr(cov, float), lambda o: e.wishart(3, o, rank=1)),
                 ('df', lambda: arr([3, 4]), lambda o: e.wishart(o, cov)), ('df-sw', lambda: arr([3, 4]), lambda o: e.standard_wishart(o, 2)), ('df-bad', lambda: arr([3, -4], float), lambda o: e.standard_wishart(o, 2)),
                 ('mcn-gamma', lambda: arr(cov, complex), lambda o: e.multivariate_complex_normal([0, 0], o)), ('mcn-rel', lambda: arr(cov * .1, complex), lambda o: e.multivariate_complex_normal([0, 0], cov, o)),
                 ('mcn-bad', lambda: arr(np.ones((2, 3)), complex), lambda o: e.multivariate_complex_normal([0, 0], cov, o)), ('size', lambda: Lst([2, 3]), lambda o: e.random(o)), ('bitgen', lambda: sub(CFGS['Romu-trio' if 'Romu-trio' in CFGS else 'SFC64']), lambda o: rg.ExtendedGenerator(o).random(3)),
                 ('state', lambda: Dct(copy.deepcopy(b.state)), lambda o: setattr(e, 'state', o)), ('bad-state', lambda: Dct({'a': 1}), lambda o: setattr(e, 'state', o)), ('setstate', lambda: Dct(copy.deepcopy(b.state)), lambda o: e.__setstate__(o))]

        def ro():
            a = arr(np.empty(4), float)
            a.flags.writeable = False
            return a
        for name, mk, fn in calls:
            for keep in (True, False):
                o = mk()
                r = ref(o)
                res = None
                try:
                    res = fn(o)
                    ok = True
                except Exception as x:
                    ok = type(x).__name__
                if res is o:
                    res = None
                del o
                if not keep:
                    res = None
                gc.collect()
                t.check(r() is None, f'kept:dist-{name}', f'{name}: the array given is still referred to after the call ({ok})', stop=False, sig=('outs', name, ok, keep))
                if res is not None and isinstance(res, np.ndarray):
                    q = weakref.ref(res)
                    del res
                    t.check(q() is None, f'kept:result-{name}', f'{name}: the result is still referred to after it was dropped', stop=False)
                t.obs()
            x = mk()
            steady(t, lambda: fn(x), f'outs:{name}', f'{name} repeated', n=8, watched=(x,))
        t.note('arguments, out arrays and results released')
    return run


def sources(i):
    """entropy, seed expansion and seed sequences; the system source fails in every way"""
    def run(t):
        import errno
        import checks.p13 as p13
        R = t.rng
        E = randomgen.entropy
        plans = [dict(), dict(oerr=errno.ENOENT), dict(oerr=errno.EMFILE), dict(plan=(-errno.EIO,), stick=1), dict(plan=(-errno.EINTR, 0)), dict(plan=(3, 1, 0)), dict(plan=(p13.EOF,), stick=1), dict(plan=(5, -errno.EIO), stick=1),
                 dict(plan=(2, p13.EOF), stick=1), dict(cerr=errno.EIO), dict(plan=(7,), stick=1)]
        for k, p in enumerate(plans):
            for sz in (None, 3, (2, 3), 300):
                for src in ('system', 'fallback', 'auto'):
                    def op():
                        with p13.Source(**p):
                            E.random_entropy(sz, src)
                    steady(t, op, f'entropy:{k}:{src}', f'random_entropy({sz}, {src!r}) with the source {p}', n=6, sig=('entropy', k, str(sz), src))
        for bad in (lambda: E.random_entropy(-1), lambda: E.random_entropy('x'), lambda: E.random_entropy(3, 'x'), lambda: E.random_entropy((2, -2)), lambda: E.seed_by_array('x', 3), lambda: E.seed_by_array(-1, 3),
                    lambda: E.seed_by_array([1, 2], -1), lambda: E.seed_by_array([1.5], 2), lambda: E.seed_by_array(np.arange(700), 33), lambda: E.seed_by_array([2 ** 64 - 1], 5), lambda: E.seed_by_array(2 ** 300, 5), lambda: E.seed_by_array([[1]], 3),
                    lambda: E.seed_by_array([2 ** 65], 3), lambda: E.seed_by_array(3, 5)):
            steady(t, bad, 'entropy:calls', 'entropy calls', n=8)
        for S in (randomgen._seed_sequence.SeedSequence, randomgen.seed_sequence.SeedSequence):
            s = S(3)
            ops = [lambda: S(2 ** 900), lambda: S([1, 2, 2 ** 70]), lambda: S('0xff'), lambda: S('zz'), lambda: S(1.5), lambda: S(-1), lambda: S(), lambda: S(3, pool_size=32), lambda: S(3, pool_size=2), lambda: S(3, spawn_key=(1, 'x')),
                   lambda: S(3, spawn_key=(2 ** 80,)), lambda: S(3).spawn(4), lambda: S(3).generate_state(50), lambda: S(3).generate_state(50, np.uint64), lambda: S(3).generate_state(5, np.float64), lambda: S(3).generate_state(-1), lambda: S(3).generate_state('x'),
                   lambda: s.generate_state(1000), lambda: s.spawn(3), lambda: repr(S(3)), lambda: s.state, lambda: pickle.loads(pickle.dumps(s)), lambda: copy.deepcopy(s), lambda: s.spawn('x'), lambda: S(p19.BadInt(1)), lambda: S([p19.BadInt(0), 1])]
            for k, op in enumerate(ops):
                steady(t, op, f'seedseq:{k}', f'{S.__module__} operation {k}', n=8, sig=('seedseq', S.__module__, k))
        for k, op in enumerate([lambda: rg.RDRAND(), lambda: rg.RDRAND().random_raw(5), lambda: rg.RDRAND(3), lambda: rg.RDRAND(retries=-3), lambda: rg.RDRAND().state, lambda: setattr(rg.RDRAND(), 'state', {}), lambda: rg.RDRAND().seed(),
                                lambda: rg.RDRAND().jumped(), lambda: rg.RDRAND().cffi, lambda: rg.RDRAND().ctypes, lambda: pickle.loads(pickle.dumps(rg.RDRAND())), lambda: np.random.Generator(rg.RDRAND()).random(4), lambda: locked(rg.RDRAND())]):
            steady(t, op, f'rdrand:{k}', f'RDRAND operation {k}', n=8, sig=('rdrand', k))
        t.note('entropy sources failing in every way, seed sequences, RDRAND')
    return run


_fail, _end = _heap.vp_fail, _heap.vp_fail_end
_fail.argtypes, _end.restype = [ctypes.c_long] * 2, ctypes.c_long


def scarce(op, k, n=1):
    """the operation with its k-th allocation refused (and the n-1 after it): outcome, result, whether it got that far"""
    e = r = None
    try:
        _fail(k, n)
        r = op()
    except Exception as x:
        e = x
    while True:
        try:
            far = _end() >= k
            break
        except MemoryError:         # as long as it lasts
            pass
    return None if e is None else type(e).__name__, r, far


def oom(cfg, i):
    """an allocation made by randomgen itself fails: the call reports it (no crash) or succeeds with the right result. What is left behind is not
    measured here: CPython 3.12 keeps the tracebacks of its spare MemoryErrors."""
    def run(t):
        R = t.rng
        b = history(cfg.make(5), cfg, R, 2, allow=('draw', 'raw'))
        st = b.state
        # a state that assignment reproduces exactly (the words a block cipher prepared may differ)
        b.state = st
        st = b.state
        other = cfg.make(77).state
        n = R.randint(1, 9)
        ops = [('make', lambda: cfg.make(5), lambda x: x.state), ('make-array', lambda: cfg.make(np.arange(3)), lambda x: x.state), ('state', lambda: b.state, lambda x: x), ('set', lambda: setattr(b, 'state', other), None),
               ('raw', lambda: b.random_raw(n), lambda x: x), ('raw-scalar', lambda: b.random_raw(), lambda x: x), ('seed', lambda: b.seed(9), None), ('pickle', lambda: pickle.dumps(b), lambda x: pickle.loads(x).state),
               ('ctypes', lambda: cfg.make(3).ctypes, None), ('generator', lambda: np.random.Generator(b).random(n), lambda x: x), ('copy', lambda: copy.deepcopy(b), lambda x: x.state)]
        if cfg.name not in WEAK:
            ops.append(('extended', lambda: rg.ExtendedGenerator(b).random(n, dtype=np.float32), lambda x: x))
        if cfg.keyed:
            ops.append(('keyed', lambda: cfg.cls(key=5, **cfg.kw), lambda x: x.state))
        if cfg.advance:
            ops.append(('advance', lambda: advance(b, cfg, 1234567890123), None))
        if hasattr(cfg.cls, 'jumped'):
            ops.append(('jumped', lambda: b.jumped(), lambda x: x.state))
        R.shuffle(ops)
        for name, op, see in ops:
            b.state = st
            want = op()
            want = see(want) if see else None
            after = b.state
            # how many allocations there are
            b.state = st
            _fail(1 << 40, 1)
            op()
            total = _end()
            ks = list(range(1, total + 6))
            lim = 12 if cfg.cls in HEAVYJUMP and name == 'jumped' else 80 if t.tier == 'quick' else 2000
            if len(ks) > lim:
                ks = sorted(R.sample(ks, lim))
            left = set()
            for k in ks:
                b.state = st
                e, r, far = scarce(op, k)
                t.evals += 1
                now = b.state
                t.hit('oom', cfg.name, name, k, e)
                if e is None:
                    t.check(equal(now, after), f'oom-state:{name}', lambda: f'{cfg.name} {name} succeeded although allocation {k} failed, but left another state: {diff(now, after)}', stop=False)
                    if see:
                        got = see(r)
                        t.check(equal(got, want), f'oom-result:{name}', lambda: f'{cfg.name} {name} succeeded although allocation {k} failed, but with another result: {diff(got, want)}', stop=False)
                else:
                    left.add(e)
                r = None
            t.obs(len(ks))
            t.check('SystemError' not in left, f'oom-error:{name}', f'{cfg.name} {name}: {left}', stop=False)
        t.note(f'{cfg.name}: {len(ops)} operations with every allocation refused in turn')
    return run


def fuzz(i):
    """public calls with hostile arguments, each repeated with the same arguments on the same object"""
    def run(t):
        R = t.rng
        o = p01.roots(R)
        live = [o]
        k = 0
        for step in range(60):
            if k >= 12:
                break
            o = R.choice(live)
            ns = p01.publics(o)
            n = R.choice(ns)
            what = type(o).__name__ if not inspect_module(o) else o.__name__
            if n == 'test' or n.startswith('__') and n not in ('__reduce__', '__getstate__', '__setstate__', '__repr__', '__str__', '__eq__', '__hash__'):
                continue
            try:
                f = getattr(o, n)
            except Exception:
                continue
            if not callable(f):
                def op(o=o, n=n):
                    return getattr(o, n)
                a, kw = [], {}
            else:
                a, kw = p01.args_for(f, n, R)
                if not p01.bounded(n, a, kw):
                    continue
                if isinstance(o, HEAVYJUMP) and n in ('jumped', 'jump'):
                    continue
                # a one-shot iterator is another argument the second time
                if any(hasattr(x, '__next__') for x in list(a) + list(kw.values())):
                    continue

                def op(f=f, a=a, kw=kw):
                    return f(*a, **kw)
            try:
                r = op()
                ok = True
            except SystemExit:
                continue
            except Exception as e:
                ok = type(e).__name__
                r = None
            if isinstance(r, np.ndarray) and r.nbytes > 10 ** 6:
                continue
            k += 1
            if r is not None and len(live) < 5 and (type(r).__module__ or '').startswith('randomgen') and not hasattr(r, 'acquire'):
                live.append(r)
            r = None
            steady(t, op, f'fuzz:{what}.{n}', f'{what}.{n}({", ".join(str(x)[:30] for x in a)} {str(kw)[:150]}) [{ok}]', n=4, warm=2, watched=tuple(x for x in list(a) + list(kw.values()) if isinstance(x, (np.ndarray, list, dict))), sig=('fuzz', what, n, ok))
        t.note(f'{k} calls repeated')
    return run


def inspect_module(o):
    return type(o).__name__ == 'module'


# ------------------------------------------------------------------------------------------------------ programs of other properties
BORROW = [('p02', ('state', 'keyed', 'wrap'), 40, 600), ('p03', None, 40, 600), ('p04', None, 50, 800), ('p05', None, 40, 600), ('p06', None, 30, 500), ('p07', None, 12, 200), ('p08', ('interleave', 'shapes'), 30, 500),
          ('p12', None, 20, 300), ('p13', ('sba', 'badseed', 'badn', 'bad'), 20, 200), ('p14', None, 40, 500), ('p16', None, 16, 200), ('p17', None, 16, 200), ('p18', None, 16, 200), ('p19', None, 80, 1500), ('p20', ('direct', 'derived', 'raising', 'refused'), 24, 300),
          ('p22', None, 30, 600), ('p23', None, 30, 500)]


def borrow(fn, name, mod):
    def run(t):
        def op():
            c = Case(t.ctx, name)
            try:
                fn(c)
            except (Stop, Exception):
                pass
        import time
        t0 = time.time()
        op()
        d = time.time() - t0
        if d > 1.5:
            t.note('too long to repeat')
            t.evals += 1
            return
        n = 3 if d < .3 else 2
        steady(t, op, f'program:{mod}:{name.split("/")[0]}', f'{name} of {mod}', n=n, warm=3, sig=('program', mod, name), wrap=False)
        t.note(f'{name} of {mod} repeated')
    return run


def cases(ctx):
    gc.collect()
    gc.freeze()
    calibrate()
    for nme in CFGS:
        for i in range(ctx.n(2, 6)):
            yield f'life/{nme}/{i}', life(CFGS[nme], i)
        for i in range(ctx.n(2, 8)):
            yield f'held/{nme}/{i}', held(CFGS[nme], i)
        yield f'supply/{nme}', supply(CFGS[nme], 0)
        for i in range(ctx.n(1, 3)):
            yield f'oom/{nme}/{i}', oom(CFGS[nme], i)
    for i in range(ctx.n(2, 20)):
        yield f'wrapper/{i}', wrapper(i)
    for i in range(ctx.n(60, 600)):
        yield f'dists/{i}', dists(i)
    for i in range(ctx.n(2, 20)):
        yield f'outs/{i}', outs(i)
    yield 'sources/0', sources(0)
    for i in range(ctx.n(500, 6000)):
        yield f'fuzz/{i}', fuzz(i)
    R = random.Random(f'{ctx.seed}/borrow')
    for modn, fams, q, th in BORROW:
        mod = importlib.import_module('checks.' + modn)
        cs = [c for c in mod.cases(ctx) if fams is None or c[0].split('/')[0] in fams]
        R.shuffle(cs)
        by = {}
        for c in cs:
            by.setdefault(c[0].split('/')[0], []).append(c)
        take, k = [], 0
        while len(take) < min(ctx.n(2 * q, 2 * th), len(cs)):
            for f in by.values():
                if k < len(f):
                    take.append(f[k])
            k += 1
        for name, fn in take[:ctx.n(2 * q, 2 * th)]:
            yield f'{modn}-{name}', borrow(fn, name, modn)
