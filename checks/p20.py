"""P20: user-defined bit generators deliver exactly what the user supplied."""
import ctypes
import gc
import os
import subprocess
import sys
import threading
import types
import warnings
import weakref
from checks.common import *
from hist import *
from randomgen.wrapper import UserBitGenerator

M64 = 2 ** 64 - 1
U64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
U32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
DBL = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)

CSRC = r'''
#include <stdint.h>
typedef struct { uint64_t n, cap; const uint64_t *raw, *w64; const uint32_t *w32; const double *d; uint64_t at[4]; unsigned char *log; uint64_t bad; void *self; } S;
static int put(S *s, int k) { if (s->self != (void *)s) { s->bad++; } if (s->n < s->cap) s->log[s->n] = k; s->n++; return (int)(s->at[k]++ % 4096); }
uint64_t c_raw(void *p) { S *s = p; return s->raw[put(s, 0)]; }
uint64_t c_64(void *p)  { S *s = p; return s->w64[put(s, 1)]; }
uint32_t c_32(void *p)  { S *s = p; return s->w32[put(s, 2)]; }
double   c_d(void *p)   { S *s = p; return s->d[put(s, 3)]; }
'''


class CS(ctypes.Structure):
    _fields_ = [('n', ctypes.c_uint64), ('cap', ctypes.c_uint64), ('raw', ctypes.c_void_p), ('w64', ctypes.c_void_p), ('w32', ctypes.c_void_p),
                ('d', ctypes.c_void_p), ('at', ctypes.c_uint64 * 4), ('log', ctypes.c_void_p), ('bad', ctypes.c_uint64), ('self', ctypes.c_void_p)]


_lib = None


def clib():
    global _lib
    if _lib is None:
        d = os.environ.get('VERIF_SCRATCH', '/tmp')
        src, so = os.path.join(d, f'ubg{os.getpid()}.c'), os.path.join(d, f'ubg{os.getpid()}.so')
        open(src, 'w').write(CSRC)
        env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'PYTHONMALLOC', 'MALLOC_PERTURB_')}
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, src], check=True, env=env)
        _lib = ctypes.CDLL(so)
        for f, r in (('c_raw', ctypes.c_uint64), ('c_64', ctypes.c_uint64), ('c_32', ctypes.c_uint32), ('c_d', ctypes.c_double)):
            g = getattr(_lib, f)
            g.restype, g.argtypes = r, [ctypes.c_void_p]
    return _lib


class Tape:
    """what the user supplies: independent random values per kind, and a log of the requests"""

    def __init__(self, R, bits=64, plain=False):
        self.R = random.Random(R.getrandbits(60))
        self.bits, self.plain = bits, plain
        self.log, self.args = [], []
        self.fail = set()

    def value(self, kind):
        R = self.R
        if kind == 'd':
            return R.choice([0.0, R.random(), R.random(), 1 - 2.0 ** -53, 2.0 ** -53, 5e-324])
        b = 32 if kind == '3' or kind == 'r' and self.bits == 32 else 64
        return R.choice([R.getrandbits(b), R.getrandbits(b), R.getrandbits(b), 0, 2 ** b - 1, 1, 2 ** (b - 1), R.getrandbits(b // 2)])

    def supply(self, kind, deliver=None):
        """a callable; `deliver` may dress the value up (out of range, int subclass, ...)"""
        def f(voidp):
            v = self.value(kind)
            self.args.append(voidp)
            self.log.append((kind, v))
            return deliver(v) if deliver else v
        return f


# ------------------------------------------------------------------------------------------------------- access paths
# each: (name, kinds of request it makes per element in order, run(b, n) -> list of values, map from supplied values to result)
def f32(u):
    return float(np.float32(u >> 9) * np.float32(2.0 ** -23))


def f32np(u):
    return float(np.float32(u >> 8) * np.float32(2.0 ** -24))


def ld(u):
    return (u >> 0)


def paths(R):
    P = [
        ('random_raw()', 'r', lambda b, n: [int(b.random_raw()) for _ in range(n)], int),
        ('random_raw(n)', 'r', lambda b, n: b.random_raw(n).tolist(), int),
        ('random_raw((n,1))', 'r', lambda b, n: b.random_raw((n, 1)).ravel().tolist(), int),
        ('random_raw(n,False)', 'r', lambda b, n: [b.random_raw(n, False)] and None, int),
        ('random_raw(None,False)', 'r', lambda b, n: [b.random_raw(None, False) for _ in range(n)] and None, int),
        ('ctypes.next_uint64', '6', lambda b, n: [b.ctypes.next_uint64(b.ctypes.state) for _ in range(n)], int),
        ('ctypes.next_uint32', '3', lambda b, n: [b.ctypes.next_uint32(b.ctypes.state) for _ in range(n)], int),
        ('ctypes.next_double', 'd', lambda b, n: [b.ctypes.next_double(b.ctypes.state) for _ in range(n)], float),
        ('cffi.next_uint64', '6', lambda b, n: [b.cffi.next_uint64(b.cffi.state) for _ in range(n)], int),
        ('cffi.next_uint32', '3', lambda b, n: [b.cffi.next_uint32(b.cffi.state) for _ in range(n)], int),
        ('cffi.next_double', 'd', lambda b, n: [b.cffi.next_double(b.cffi.state) for _ in range(n)], float),
        ('uintegers(n)', '6', lambda b, n: rg.ExtendedGenerator(b).uintegers(n).tolist(), int),
        ('uintegers()', '6', lambda b, n: [int(rg.ExtendedGenerator(b).uintegers()) for _ in range(n)], int),
        ('uintegers(n,32)', '3', lambda b, n: rg.ExtendedGenerator(b).uintegers(n, bits=32).tolist(), int),
        ('uintegers(None,32)', '3', lambda b, n: [int(rg.ExtendedGenerator(b).uintegers(bits=32)) for _ in range(n)], int),
        ('ext.random(n)', 'd', lambda b, n: rg.ExtendedGenerator(b).random(n).tolist(), float),
        ('ext.random()', 'd', lambda b, n: [float(rg.ExtendedGenerator(b).random()) for _ in range(n)], float),
        ('ext.random(out)', 'd', lambda b, n: rg.ExtendedGenerator(b).random(out=np.empty(n)).tolist(), float),
        ('ext.random(f)', '3', lambda b, n: rg.ExtendedGenerator(b).random(n, dtype='f').tolist(), f32),
        ('ext.random(None,f)', '3', lambda b, n: [float(rg.ExtendedGenerator(b).random(dtype='f')) for _ in range(n)], f32),
        ('ext.random(g)', '6', lambda b, n: [int(x * np.longdouble(2) ** 64) for x in rg.ExtendedGenerator(b).random(n, dtype='longdouble')], ld),
        ('np.random(n)', 'd', lambda b, n: np.random.Generator(b).random(n).tolist(), float),
        ('np.random()', 'd', lambda b, n: [np.random.Generator(b).random() for _ in range(n)], float),
        ('np.random(f)', '3', lambda b, n: np.random.Generator(b).random(n, dtype=np.float32).tolist(), f32np),
        ('np.integers(2**64)', '6', lambda b, n: np.random.Generator(b).integers(0, 2 ** 64, n, dtype=np.uint64).tolist(), int),
        ('np.integers(2**32)', '3', lambda b, n: np.random.Generator(b).integers(0, 2 ** 32, n, dtype=np.uint32).tolist(), int),
        ('RandomState.random_sample', 'd', lambda b, n: np.random.RandomState(b).random_sample(n).tolist(), float),
        ('benchmark uint64', '6', lambda b, n: b._benchmark(n), int),
        ('benchmark double', 'd', lambda b, n: b._benchmark(n, 'double'), float),
    ]
    return P


DRESS = {
    'plain': None,
    'huge': lambda R: lambda v: v + (R.getrandbits(60) << 64) if isinstance(v, int) else v,
    'over': lambda R: lambda v: v + 2 ** 64 if isinstance(v, int) else v,
    'negative': lambda R: lambda v: v - 2 ** 64 if isinstance(v, int) else v,
    'subclass': lambda R: lambda v: type('I', (int,), {})(v) if isinstance(v, int) else np.float64(v),
}


def direct(i):
    """all four callbacks supplied: every path delivers the supplied values, one request per value, in order, with the pointer given"""
    def run(t):
        R = t.rng
        bits = R.choice([32, 64])
        tape = Tape(R, bits)
        dn = R.choice(['plain', 'plain', *DRESS])
        dress = DRESS[dn](R) if DRESS[dn] else None
        buf = None
        kw = {}
        ptr = None
        if R.random() < .4:
            buf = ctypes.create_string_buffer(64)
            kw['state'] = ctypes.cast(buf, ctypes.c_void_p)
            ptr = ctypes.addressof(buf)
        fs = [tape.supply(k, dress) for k in 'r63d']
        style = R.randrange(3)
        if style == 0:
            b = UserBitGenerator(fs[0], bits, fs[1], fs[2], fs[3], **kw)
        elif style == 1:
            b = UserBitGenerator(next_raw=fs[0], bits=bits, next_double=fs[3], next_32=fs[2], next_64=fs[1], **kw)
        else:                                     # ctypes function objects made by the user
            b = UserBitGenerator.from_ctypes(U64(fs[0]), U64(fs[1]), U32(fs[2]), DBL(fs[3]), kw.get('state'))
        if R.random() < .5:
            del fs
            gc.collect()
            junk = [bytearray(k) for k in (32, 64, 128, 256) * 10]      # noqa
        walk(t, b, tape, R, ptr, f'{["positional", "keyword", "from_ctypes"][style]}/{dn}', R.choice([3, 8]))
        del b
    return run


def walk(t, b, tape, R, ptr, what, steps):
    P = paths(R)
    for _ in range(steps):
        name, kind, call, conv = R.choice(P)
        n = R.choice([1, 1, 2, 3, 9, 30, 0]) if '(n' in name else R.choice([1, 2, 5])
        if n == 0 and name in ('random_raw(n,False)',):
            n = 1
        tape.log.clear()
        tape.args.clear()
        got = call(b, n)
        t.obs(n)
        t.evals += 1
        kinds = ''.join(k for k, _ in tape.log)
        if kinds != kind * n:
            t.fail(f'requests:{name}', f'UserBitGenerator ({what}): {n} values through {name} made the requests {kinds!r}, expected {kind * n!r}')
        if any(a != ptr for a in tape.args):
            t.fail('pointer', f'UserBitGenerator ({what}): callback for {name} received {tape.args[0]} instead of the state pointer {ptr}')
        if got is not None:
            want = [conv(v) for _, v in tape.log]
            t.same(got, want, f'values:{name}', f'UserBitGenerator ({what}): {name}')
        t.hit('path', name, what)


def derived(i):
    """some callbacks left out: they are built from next_raw, as documented"""
    def run(t):
        R = t.rng
        bits = R.choice([32, 64])
        tape = Tape(R, bits)
        given = {k: R.random() < .4 for k in '63d'}
        kw = {nme: tape.supply(k) for k, nme in (('6', 'next_64'), ('3', 'next_32'), ('d', 'next_double')) if given[k]}
        b = UserBitGenerator(tape.supply('r'), bits, **kw)
        P = paths(R)
        for _ in range(8):
            name, kind, call, conv = R.choice(P)
            n = R.choice([1, 2, 5, 17])
            tape.log.clear()
            got = call(b, n)
            t.obs(n)
            kinds = ''.join(k for k, _ in tape.log)
            vals = [v for _, v in tape.log]
            if kind == 'r' or given[kind]:
                per, comb = kind, lambda v: v[0]
            elif bits == 64:
                per, comb = 'r', {'6': lambda v: v[0], '3': lambda v: v[0] >> 32, 'd': lambda v: (v[0] >> 11) / 2.0 ** 53}[kind]
            else:
                per, comb = {'6': 'rr', '3': 'r', 'd': 'rr'}[kind], {'6': lambda v: v[0] << 32 | v[1], '3': lambda v: v[0],
                                                                   'd': lambda v: ((v[0] >> 5) * 67108864.0 + (v[1] >> 6)) / 9007199254740992.0}[kind]
            t.evals += 1
            if kinds != per * n:
                t.fail(f'requests-derived:{kind}{bits}', f'UserBitGenerator(bits={bits}, given {sorted(kw)}): {n} values through {name} made the requests {kinds!r}, expected {per * n!r}')
            if got is not None:
                w = len(per)
                t.same(got, [conv(comb(vals[j:j + w])) for j in range(0, w * n, w)], f'values-derived:{kind}{bits}', f'UserBitGenerator(bits={bits}, given {sorted(kw)}): {name}')
            t.hit('derived', name, bits, *sorted(kw))
    return run


TWINS = ['PCG64', 'MT19937', 'SFC64', 'Xoshiro256', 'Philox4x64', 'ChaCha', 'DSFMT', 'JSF', 'MT64', 'Squares32', 'HC128', 'Philox4x32']
TWINS = [x for x in TWINS if x in CFGS]


def dist_calls(R):
    n = R.choice([1, 3, 20])
    C = [
        lambda g: g.standard_normal(n), lambda g: g.standard_normal(n, dtype=np.float32), lambda g: g.exponential(2., n), lambda g: g.gamma(R2(R, .3, 4), size=n),
        lambda g: g.standard_exponential(n, dtype=np.float32), lambda g: g.integers(0, R2i(R), n), lambda g: g.integers(0, 200, n, dtype=np.uint8),
        lambda g: g.integers(0, 1 << 16, n, dtype=np.uint16, endpoint=False), lambda g: g.permutation(n), lambda g: g.choice(50, n, replace=False) if n < 50 else None,
        lambda g: g.poisson(20., n), lambda g: g.binomial(40, .4, n), lambda g: g.multinomial(9, [.2, .3, .5], n), lambda g: g.dirichlet([1., 2., 3.], n),
        lambda g: g.vonmises(0, 1, n), lambda g: g.zipf(2.5, n), lambda g: g.hypergeometric(20, 30, 10, n), lambda g: g.random(n, dtype=np.float32),
        lambda g: g.bytes(n), lambda g: g.beta(.5, .5, n), lambda g: g.standard_t(3, n), lambda g: g.laplace(size=n), lambda g: g.shuffle(np.arange(n)),
    ]
    return [R.choice(C) for _ in range(5)]


def R2(R, a, b):
    return (a + b) / 2


def R2i(R):
    return 10 ** 6


def ext_calls(R):
    n = R.choice([1, 3, 20])
    C = [lambda g: g.multivariate_normal([0., 1.], [[2., .5], [.5, 1.]], n), lambda g: g.complex_normal(1, 2, .5, n), lambda g: g.wishart(5, np.eye(2), n),
         lambda g: g.multivariate_complex_normal([0, 1j], np.eye(2), .2 * np.eye(2), n), lambda g: g.standard_wishart(4, 2, n), lambda g: g.uintegers(n, bits=32),
         lambda g: g.uintegers(n), lambda g: g.random(n), lambda g: g.random(n, dtype='f'), lambda g: g.random(n, dtype='longdouble')]
    return [R.choice(C) for _ in range(3)]


def native(i):
    """a user generator whose callbacks are those of a real generator is that generator, under any distribution"""
    def run(t):
        R = t.rng
        cfg = CFGS[R.choice(TWINS)]
        seed = R.getrandbits(50)
        src, tw = cfg.make(seed), cfg.make(seed)
        it = src.ctypes
        style = R.choice(['python', 'ctypes', 'python32' if cfg.name == 'MT19937' else 'python', 'getset'])
        kw = {}
        if style == 'getset':
            kw = dict(state_getter=lambda: src.state, state_setter=lambda v: setattr(src, 'state', v))
        if style == 'ctypes':
            # the address of the state goes through the user generator; raw is the 64-bit function for these generators
            u = UserBitGenerator.from_ctypes(it.next_uint64 if cfg.name != 'MT19937' else U64(lambda p: src.random_raw()), it.next_uint64, it.next_uint32, it.next_double, it.state)
        elif style == 'python32':
            u = UserBitGenerator(lambda p: it.next_uint32(it.state), 32)
        else:
            u = UserBitGenerator(lambda p: int(src.random_raw()), 32 if cfg.name == 'MT19937' else 64, lambda p: it.next_uint64(it.state), lambda p: it.next_uint32(it.state),
                                 lambda p: it.next_double(it.state), **kw)
        gu, gt = np.random.Generator(u), np.random.Generator(tw)
        eu, et = rg.ExtendedGenerator(u), rg.ExtendedGenerator(tw)
        for k, c in enumerate(dist_calls(R)):
            x, y = c(gu), c(gt)
            t.same(canon(x), canon(y), 'distribution', f'user generator ({style}) around {cfg.name}: numpy distribution')
            t.evals += 1
        for c in ext_calls(R):
            x, y = c(eu), c(et)
            t.same(canon(np.asarray(x)), canon(np.asarray(y)), 'distribution', f'user generator ({style}) around {cfg.name}: ExtendedGenerator distribution')
        t.same(live(src.state), live(tw.state), 'consumption', f'user generator ({style}) around {cfg.name}: state of the wrapped generator afterwards')
        if style == 'getset':
            st = u.state
            t.same(live(st), live(src.state), 'state-get', f'user generator around {cfg.name}')
            gu.random(5)
            u.state = st
            t.same(gu.random(5).tolist(), gt.random(5).tolist(), 'state-set', f'user generator around {cfg.name}: draws after restoring')
            eu.state = tw.state
            t.same(live(src.state), live(tw.state), 'state-set', f'user generator around {cfg.name} through ExtendedGenerator.state')
        t.hit('twin', cfg.name, style)
    return run


def compiled(i):
    """C callbacks with a state struct: values, order, pointer, lifetime of the struct"""
    def run(t):
        R = t.rng
        lib = clib()
        N = 4096
        raw = np.array([R.getrandbits(64) for _ in range(N)], np.uint64)
        w64 = np.array([R.getrandbits(64) for _ in range(N)], np.uint64)
        w32 = np.array([R.getrandbits(32) for _ in range(N)], np.uint32)
        d = np.array([R.random() for _ in range(N)])
        log = np.zeros(200000, np.uint8)
        st = CS(0, len(log), raw.ctypes.data, w64.ctypes.data, w32.ctypes.data, d.ctypes.data, (ctypes.c_uint64 * 4)(), log.ctypes.data, 0, 0)
        st.self = ctypes.addressof(st)
        ptr = ctypes.cast(ctypes.pointer(st), ctypes.c_void_p)
        calls = []
        kw = dict(state_getter=lambda: {'at': list(st.at)}, state_setter=lambda v: calls.append(v))
        via = R.choice(['ctypes', 'cfunc', 'address'])
        fs = [lib.c_raw, lib.c_64, lib.c_32, lib.c_d]
        if via == 'cfunc':
            mk_numba()
            from numba.core.ccallback import CFunc
            b = UserBitGenerator.from_cfunc(*[CFunc(f) for f in fs], ptr, **kw)
            t.check('CFunc' in repr(b), 'repr', repr(b))
        else:
            if via == 'address':
                fs = [ty(ctypes.cast(f, ctypes.c_void_p).value) for ty, f in zip((U64, U64, U32, DBL), fs)]
            b = UserBitGenerator.from_ctypes(*fs, ptr, **kw)
        del fs
        src = {'r': raw, '6': w64, '3': w32, 'd': d}
        at = {k: 0 for k in src}
        gc.collect()
        for _ in range(12):
            name, kind, call, conv = R.choice(paths(R))
            n = R.choice([1, 3, 40, 1000] if '(n' in name or 'benchmark' in name else [1, 3])
            n0 = st.n
            got = call(b, n)
            t.obs(n)
            t.evals += 1
            kinds = ''.join('r63d'[x] for x in log[n0:st.n].tolist())
            if kinds != kind * n:
                t.fail(f'requests:{name}', f'compiled callbacks ({via}): {n} values through {name} made {st.n - n0} requests {kinds[:40]!r}, expected {n} of {kind!r}')
            if got is not None:
                want = [conv(src[kind][(at[kind] + j) % N].item()) for j in range(n)]
                t.same(got, want, f'values:{name}', f'compiled callbacks ({via}): {name}')
            at[kind] += n
            t.hit('compiled', via, name)
        t.check(st.bad == 0, 'pointer', f'compiled callbacks ({via}): {st.bad} calls with a wrong state pointer')
        t.same(b.state, {'at': list(st.at)}, 'state-get', 'compiled callbacks')
        o = object()
        b.state = o
        t.check(calls == [o], 'state-set', 'compiled callbacks: the setter did not receive the object assigned')
        # many threads: every request is served exactly once
        n0 = st.n
        g = np.random.Generator(b)
        a0 = st.at[1]
        outs = []
        ths = [threading.Thread(target=lambda: outs.append(g.integers(0, 2 ** 64, 2000, dtype=np.uint64))) for _ in range(4)]
        for x in ths:
            x.start()
        for x in ths:
            x.join()
        got = sorted(x for o in outs for x in o.tolist())
        t.check(st.n - n0 == 8000 and st.at[1] - a0 == 8000, 'requests:threads', f'4 x 2000 draws made {st.n - n0} requests')
        t.same(got, sorted(w64[(a0 + j) % N].item() for j in range(8000)), 'values:threads', 'compiled callbacks: values delivered to four threads')
    return run


def mk_numba():
    """a stand-in for numba's compiled callback (numba is not installed here)"""
    if 'numba.core.ccallback' in sys.modules:
        return

    class CFunc:
        def __init__(self, f):
            self._f = f

        @property
        def ctypes(self):
            return self._f
    mods = [types.ModuleType(x) for x in ('numba', 'numba.core', 'numba.core.ccallback')]
    for m in mods:
        sys.modules[m.__name__] = m
    mods[0].core, mods[1].ccallback, mods[2].CFunc = mods[1], mods[2], CFunc


class Boom(Exception):
    pass


def raising(i):
    """an exception in a callback neither crashes nor disturbs the requests after it; the lock is released"""
    def run(t):
        R = t.rng
        tape = Tape(R)
        n_bad = [0]
        bad_kinds = [R.choice('r63d') for _ in range(3)]

        def wrap(k):
            f = tape.supply(k)

            def h(p):
                v = f(p)
                if armed[0] and k in bad_kinds and tape.R.random() < .5:
                    n_bad[0] += 1
                    e = R.choice([Boom('x'), ValueError('y'), KeyboardInterrupt(), SystemExit(3), StopIteration(), RecursionError()])
                    raise e
                if armed[0] and R.random() < .2:
                    n_bad[0] += 1
                    return R.choice([None, 'abc', [1], object(), 1.5 if k != 'd' else 'z', np.uint64(3), 3 + 4j, b'x'])
                return v
            return h
        armed = [False]
        b = UserBitGenerator(*[wrap('r'), 64, wrap('6'), wrap('3'), wrap('d')])
        seen = []
        hook, sys.unraisablehook = sys.unraisablehook, lambda u: seen.append(u.exc_type)
        try:
            for _ in range(6):
                armed[0] = True
                name, kind, call, conv = R.choice(paths(R))
                n = R.choice([1, 3, 9])
                tape.log.clear()
                e = None
                try:
                    call(b, n)
                except BaseException as ex:
                    e = ex
                t.obs(n)
                armed[0] = False
                t.check(not b.lock.locked(), 'lock-held', f'{name}: a failing callback leaves the lock taken')
                kinds = ''.join(k for k, _ in tape.log)
                if e is None:
                    t.check(kinds == kind * n, f'requests:{name}', f'{n} values through {name} with failing callbacks made the requests {kinds!r}')
                walk(t, b, tape, R, None, 'after a failing callback', 1)
                t.hit('raising', name)
        finally:
            sys.unraisablehook = hook
        t.check(len(seen) <= n_bad[0] or not n_bad[0], 'unraisable', f'{len(seen)} errors reported for {n_bad[0]} failing callbacks')
    return run


def forwarding(i):
    """state get and set are forwarded exactly; missing ones are refused; exceptions come through"""
    def run(t):
        R = t.rng
        tape = Tape(R)
        box = {'v': object(), 'got': [], 'n': 0}

        def getter():
            box['n'] += 1
            if box.get('raise'):
                raise Boom('getter')
            return box['v']

        def setter(v):
            box['got'].append(v)
            if box.get('raise'):
                raise Boom('setter')
            return 5
        hg, hs = R.random() < .7, R.random() < .7
        kw = {}
        if hg:
            kw['state_getter'] = getter
        if hs:
            kw['state_setter'] = setter
        if R.random() < .5:
            b = UserBitGenerator(tape.supply('r'), R.choice([32, 64]), **kw)
        else:
            lib = [U64(tape.supply('r')), U64(tape.supply('6')), U32(tape.supply('3')), DBL(tape.supply('d'))]
            b = UserBitGenerator.from_ctypes(*lib, None, **kw)
        for holder in (b, rg.ExtendedGenerator(b)):
            for _ in range(3):
                box['v'] = R.choice([object(), None, 5, {'a': np.arange(3)}, 'x', (1, 2)])
                n0 = box['n']
                if hg:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        t.check(holder.state is box['v'] and box['n'] == n0 + 1, 'state-get', f'{type(holder).__name__}.state did not return the object of the getter (called {box["n"] - n0} times)')
                else:
                    t.check(raises(lambda: holder.state, NotImplementedError), 'state-get', 'state without a getter did not raise NotImplementedError')
                v = R.choice([object(), None, 5, {'a': 1}, 'x'])
                k0 = len(box['got'])
                if hs:
                    holder.state = v
                    t.check(len(box['got']) == k0 + 1 and box['got'][-1] is v, 'state-set', f'{type(holder).__name__}.state = v reached the setter {len(box["got"]) - k0} times')
                else:
                    t.check(raises(lambda: setattr(holder, 'state', v), NotImplementedError), 'state-set', 'assigning state without a setter did not raise NotImplementedError')
                t.hit('forward', hg, hs, type(holder).__name__)
        box['raise'] = True
        if hg:
            t.check(raises(lambda: b.state, Boom), 'state-get', 'an exception of the getter was lost')
        if hs:
            t.check(raises(lambda: setattr(b, 'state', 1), Boom), 'state-set', 'an exception of the setter was lost')
        t.check(tape.log == [], 'requests:state', 'reading or assigning the state drew values')
    return run


def raises(f, *ex):
    try:
        f()
    except ex:
        return True
    except BaseException:
        return False
    return False


def refused(i):
    """arguments that are no callbacks are refused with an exception (they are never called)"""
    def run(t):
        R = t.rng
        ok = lambda p: 3  # noqa
        okc = [U64(ok), U64(ok), U32(ok), DBL(lambda p: .5)]
        bad = [5, 2 ** 40, 'abc', b'abc', 1.5, [], {}, object(), True]
        for x in bad:
            for pos in range(4):
                kw = {'next_raw': ok}
                kw[['next_raw', 'next_64', 'next_32', 'next_double'][pos]] = x
                t.check(raises(lambda: UserBitGenerator(**kw), TypeError, ValueError, ctypes.ArgumentError), 'accepted:callback', f'UserBitGenerator({kw}) was accepted')
                cs = list(okc)
                cs[pos] = x
                t.check(raises(lambda: UserBitGenerator.from_ctypes(*cs, None), TypeError, ValueError), 'accepted:ctypes', f'from_ctypes with {x!r} at {pos} was accepted')
                t.evals += 2
        for pos, ty in ((0, U32), (1, U32), (2, U64), (3, U64), (0, DBL)):
            cs = list(okc)
            cs[pos] = ty(lambda p: 1)
            t.check(raises(lambda: UserBitGenerator.from_ctypes(*cs, None), TypeError), 'accepted:restype', f'from_ctypes with a wrong result type at {pos} was accepted')
        for bits in (0, 16, 31, 33, 63, 65, 128, -32, 'abc', None, 64.5):
            t.check(raises(lambda: UserBitGenerator(ok, bits), TypeError, ValueError), 'accepted:bits', f'UserBitGenerator(bits={bits!r}) was accepted')
        t.check(raises(lambda: UserBitGenerator(None), TypeError), 'accepted:callback', 'UserBitGenerator(None) was accepted')
        mk_numba()
        t.check(raises(lambda: UserBitGenerator.from_cfunc(*okc, None), TypeError), 'accepted:cfunc', 'from_cfunc accepted plain ctypes functions')
        t.hit('refused')
    return run


class Callable:
    def __init__(self, f):
        self.f = f

    def __call__(self, p):
        return self.f(p)

    def method(self, p):
        return self.f(p)


def lifetime(i):
    """callbacks and state stay alive with the generator, and go with it"""
    def run(t):
        R = t.rng
        tape = Tape(R)
        gone = []
        objs = [Callable(tape.supply(k)) for k in 'r63d']
        for k, o in zip('r63d', objs):
            weakref.finalize(o, gone.append, k)
        buf = ctypes.create_string_buffer(b'hello', 4096)
        weakref.finalize(buf, gone.append, 'buf')
        ptr = ctypes.cast(buf, ctypes.c_void_p)
        addr = ptr.value
        style = R.choice(['object', 'method', 'ctypes', 'mixed'])
        if style == 'object':
            b = UserBitGenerator(objs[0], 64, objs[1], objs[2], objs[3], ptr)
        elif style == 'method':
            b = UserBitGenerator(objs[0].method, 64, objs[1].method, objs[2].method, objs[3].method, ptr)
        elif style == 'ctypes':
            b = UserBitGenerator.from_ctypes(U64(objs[0]), U64(objs[1]), U32(objs[2]), DBL(objs[3]), ptr)
        else:
            b = UserBitGenerator(objs[0], 64, lambda p, o=objs[1]: o(p), objs[2].method, DBL(objs[3]), ptr)
        hold = R.choice(['b', 'np', 'ext', 'raw', 'rs'])
        h = {'b': lambda: b, 'np': lambda: np.random.Generator(b), 'ext': lambda: rg.ExtendedGenerator(b), 'raw': lambda: b.random_raw, 'rs': lambda: np.random.RandomState(b)}[hold]()
        wb = b
        del b, objs, buf, ptr, o, k
        if hold != 'b':
            del wb
        gc.collect()
        junk = [U64(lambda p: 1) for _ in range(40)] + [bytearray(n) for n in (64, 256, 4096, 4097, 4128) for _ in range(8)]
        del junk
        junk = [ctypes.create_string_buffer(b'\xff' * 4095, 4096) for _ in range(4)]
        t.check(gone == [], 'dropped', f'user generator ({style}) held through {hold}: {gone} destroyed while in use')
        if hold == 'raw':
            tape.log.clear()
            got = h(9).tolist()
            t.same(got, [v for _, v in tape.log], 'values:lifetime', 'random_raw method')
        elif hold == 'rs':
            tape.log.clear()
            t.same(h.random_sample(5).tolist(), [v for _, v in tape.log], 'values:lifetime', 'RandomState')
        else:
            bb = h if hold == 'b' else h.bit_generator if hold in ('np', 'ext') else None
            walk(t, bb, tape, R, addr, f'held through {hold} ({style})', 3)
            t.check(ctypes.string_at(addr, 5) == b'hello', 'state-freed', f'user generator ({style}): the buffer behind the state pointer changed')
            del bb
        t.hit('lifetime', style, hold)
        h = None
        if hold == 'b':
            del wb
        gc.collect()
        t.check(sorted(gone) == sorted(['r', '6', '3', 'd', 'buf']), 'never-dropped', f'user generator ({style}) dropped: only {gone} of its callbacks and data were released')
    return run


def cases(ctx):
    for i in range(ctx.n(400, 6000)):
        yield f'direct/{i}', direct(i)
    for i in range(ctx.n(300, 5000)):
        yield f'derived/{i}', derived(i)
    for i in range(ctx.n(120, 2500)):
        yield f'native/{i}', native(i)
    for i in range(ctx.n(40, 600)):
        yield f'compiled/{i}', compiled(i)
    for i in range(ctx.n(120, 2000)):
        yield f'raising/{i}', raising(i)
    for i in range(ctx.n(120, 1500)):
        yield f'forwarding/{i}', forwarding(i)
    for i in range(2):
        yield f'refused/{i}', refused(i)
    for i in range(ctx.n(120, 2000)):
        yield f'lifetime/{i}', lifetime(i)
