"""P08: every access path draws from one and the same stream."""
import ctypes
import gc
import pickle
from collections import defaultdict
from checks.common import *
from hist import *

BYCLS = defaultdict(list)
for _c in CFGS.values():
    BYCLS[_c.cls].append(_c)

F64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
F32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
FD = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)


class BitGenStruct(ctypes.Structure):
    _fields_ = [('state', ctypes.c_void_p), ('u64', F64), ('u32', F32), ('dbl', FD), ('raw', F64)]


ctypes.pythonapi.PyCapsule_GetPointer.restype = ctypes.c_void_p
ctypes.pythonapi.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]


def capsule_struct(b):
    p = ctypes.pythonapi.PyCapsule_GetPointer(b.capsule, b'BitGenerator')
    return BitGenStruct.from_address(p)


SIZES = [None, 0, 1, 2, 3, 5, 8, 17, 64, 65, (), (0,), (3,), (2, 3), (0, 4), (1, 1, 5), (2, 0, 3), (3, 1, 2)]


def count(size):
    return 1 if size is None else int(np.prod(size, dtype=int)) if not isinstance(size, int) else size


def shape(size):
    return None if size is None else (size,) if isinstance(size, int) else tuple(size)


class Paths:
    """all the ways of reading one bit generator; each returns (kind, values)"""

    def __init__(self, t, b, R):
        self.t, self.b, self.R = t, b, R
        self.cache = {}
        self.names = ['raw', 'rawarr', 'rawarr', 'rawskip', 'ctypes', 'cffi', 'capsule', 'cptr', 'np_random', 'np_random32',
                      'np_u64', 'np_u32', 'np_u16full', 'np_bytes', 'np_out', 'ext_u64', 'ext_u32', 'ext_rand', 'ext_rand32', 'ext_out', 'rs_sample']

    def hold(self, kind, make):
        """sometimes keep the object, sometimes make a new one"""
        if kind not in self.cache or self.R.random() < .2:
            self.cache[kind] = make()
        return self.cache[kind]

    def draw(self):
        name = self.R.choice(self.names)
        return (name,) + getattr(self, name)()

    def arr(self, a, size, dt, what):
        t = self.t
        if size is None:
            t.check(np.ndim(a) == 0, f'access-shape:{what}', f'{what}(None) returned {type(a)}')
            return [a]
        t.check(isinstance(a, np.ndarray) and a.shape == shape(size) and a.dtype == dt, f'access-shape:{what}',
                lambda: f'{what}({size}): {getattr(a, "shape", None)} {getattr(a, "dtype", None)}')
        return a.ravel().tolist()

    def raw(self):
        a = self.b.random_raw()
        self.t.check(isinstance(a, int), 'access-type:raw', type(a))
        return 'r', [a]

    def rawarr(self):
        s = self.R.choice(SIZES)
        return 'r', [int(x) for x in self.arr(self.b.random_raw(s), s, np.uint64, 'random_raw')]

    def rawskip(self):
        s = self.R.choice(SIZES)
        r = self.b.random_raw(s, False) if self.R.random() < .5 else self.b.random_raw(size=s, output=False)
        self.t.check(r is None, 'access-shape:output=False', f'random_raw({s}, output=False) returned {r!r}')
        return 'r', [None] * count(s)

    def iface(self, kind):
        o = self.hold(kind, lambda: getattr(self.b, kind))
        k = self.R.randint(1, 5)
        v = self.R.choice('36d')
        f = {'3': o.next_uint32, '6': o.next_uint64, 'd': o.next_double}[v]
        st = o.state if self.R.random() < .5 else o.state_address
        if kind == 'cffi' and isinstance(st, int):
            import cffi
            st = cffi.FFI().cast('void *', st)
        return v, [f(st) for _ in range(k)]

    def ctypes(self):
        return self.iface('ctypes')

    def cffi(self):
        return self.iface('cffi')

    def capsule(self):
        s = self.hold('capsule', lambda: (capsule_struct(self.b), self.b.capsule))[0]
        return self.struct(s)

    def cptr(self):
        def make():
            p = self.b.ctypes.bit_generator
            return BitGenStruct.from_address(p.value if hasattr(p, 'value') else int(p))
        return self.struct(self.hold('cptr', make))

    def struct(self, s):
        k = self.R.randint(1, 5)
        v = self.R.choice('r36d')
        f = {'r': s.raw, '3': s.u32, '6': s.u64, 'd': s.dbl}[v]
        return v, [f(s.state) for _ in range(k)]

    def gen(self):
        return self.hold('gen', lambda: np.random.Generator(self.b))

    def ext(self):
        return self.hold('ext', lambda: rg.ExtendedGenerator(self.b))

    def np_random(self):
        s = self.R.choice(SIZES)
        return 'd', self.arr(self.gen().random(s), s, np.float64, 'Generator.random')

    def np_random32(self):
        s = self.R.choice(SIZES)
        a = self.arr(self.gen().random(s, dtype=np.float32), s, np.float32, 'Generator.random32')
        return '3', [('f', float(x)) for x in a]

    def np_u64(self):
        s = self.R.choice(SIZES)
        a = self.arr(self.gen().integers(0, M64, size=s, dtype=np.uint64, endpoint=True), s, np.uint64, 'integers')
        return '6', [int(x) for x in a]

    def np_u32(self):
        s = self.R.choice(SIZES)
        a = self.arr(self.gen().integers(0, M32, size=s, dtype=np.uint32, endpoint=True), s, np.uint32, 'integers')
        return '3', [int(x) for x in a]

    def np_u16full(self):
        """two 16-bit values per 32-bit draw"""
        n = 2 * self.R.randint(1, 5)
        a = self.gen().integers(0, 0xFFFF, size=n, dtype=np.uint16, endpoint=True)
        return '3', [int(a[i]) | int(a[i + 1]) << 16 for i in range(0, n, 2)]

    def np_bytes(self):
        n = self.R.randint(1, 6)
        a = np.frombuffer(self.gen().bytes(4 * n), dtype='<u4')
        return '3', [int(x) for x in a]

    def np_out(self):
        o = np.full((self.R.randint(0, 4), self.R.randint(1, 3)), -1.0)
        r = self.gen().random(out=o)
        return 'd', o.ravel().tolist()

    def ext_u64(self):
        s = self.R.choice(SIZES)
        a = self.arr(self.ext().uintegers(s, bits=64), s, np.uint64, 'uintegers64')
        return '6', [int(x) for x in a]

    def ext_u32(self):
        s = self.R.choice(SIZES)
        a = self.arr(self.ext().uintegers(s, bits=32), s, np.uint32, 'uintegers32')
        return '3', [int(x) for x in a]

    def ext_rand(self):
        s = self.R.choice(SIZES)
        return 'd', self.arr(self.ext().random(s), s, np.float64, 'ext.random')

    def ext_rand32(self):
        s = self.R.choice(SIZES)
        a = self.arr(self.ext().random(s, dtype=np.float32), s, np.float32, 'ext.random32')
        return '3', [('x', float(x)) for x in a]

    def ext_out(self):
        o = np.full((self.R.randint(0, 4), self.R.randint(1, 3)), -1.0)
        r = self.ext().random(out=o)
        self.t.check(r is o, 'access-out', 'random(out) does not return out')
        return 'd', o.ravel().tolist()

    def rs_sample(self):
        g = self.hold('rs', lambda: np.random.RandomState(self.b))
        n = self.R.randint(0, 5)
        return 'd', g.random_sample(n).tolist()


def f32(tag, u):
    if tag == 'x':      # ExtendedGenerator keeps 23 bits, NumPy 24
        return float(np.float32(u >> 9) * np.float32(1.0 / 8388608.0))
    return float(np.float32(u >> 8) * np.float32(1.0 / 16777216.0))


def interleave(cfg, i):
    def run(t):
        R = t.rng
        seed = hostile_seed(R)
        b = cfg.make(seed)
        mdl = cfg.model(seed) if cfg._model else cfg.load(b.state)
        one = {'r': mdl.raw, '3': mdl.next32, '6': mdl.next64, 'd': mdl.double}
        P = Paths(t, b, R)
        log = []
        for step in range(R.choice([4, 12, 30])):
            name, v, vals = P.draw()
            log.append(f'{name}x{len(vals)}')
            want = [one[v]() for _ in vals]
            want = [None if g is None else (g[0], f32(g[0], w)) if isinstance(g, tuple) else w for g, w in zip(vals, want)]
            t.same(vals, want, f'access-order:{cfg.name}:{name}', f'seed {seed}, {" ".join(log[-8:])} (step {step})',
                   sig=('path', cfg.name, name, len(log) and log[-2:-1] and log[-2].split('x')[0]))
            if R.random() < .04:
                gc.collect(0)
        t.note(f'{cfg.name} seed {seed}: {" ".join(log)}')
    return run


def shapes(cfg, i):
    """one array draw == as many scalar draws; discarding moves just as far"""
    def run(t):
        R = t.rng
        a = edgy(R, cfg)
        future(a, ops_string(R, R.randrange(30)))
        st = a.state
        b = cfg.make(0)
        for s in SIZES + [R.randrange(1, 3000), (R.randrange(1, 20), R.randrange(1, 20)), np.int64(7), (np.int32(2), 3), [2, 3], np.array([2, 2])]:
            a.state = st
            b.state = st
            x = a.random_raw(s)
            n = count(s if s is None or isinstance(s, (int, tuple)) else tuple(np.atleast_1d(s).tolist()))
            want = [b.random_raw() for _ in range(n)]
            got = [int(v) for v in np.asarray(x, dtype=object).ravel()] if s is not None else [x]
            t.same(got, want, f'array-vs-scalar:{cfg.name}', f'random_raw({s!r})', sig=('shape', cfg.name, str(s)))
            tail = ops_string(R, 12)
            fa = future(a, tail)
            t.same(fa, future(b, tail), f'array-vs-scalar:{cfg.name}', f'stream after random_raw({s!r})')
            b.state = st
            r = b.random_raw(s, output=False)
            t.check(r is None, f'discard:{cfg.name}', f'random_raw({s!r}, False) returned something')
            t.same(future(b, tail), fa, f'discard:{cfg.name}', f'stream after random_raw({s!r}, output=False)')
        # ExtendedGenerator and Generator arrays against their scalars
        ga, gb = rg.ExtendedGenerator(a), rg.ExtendedGenerator(b)
        for f in (lambda g, s: g.uintegers(s, bits=32), lambda g, s: g.uintegers(s, bits=64), lambda g, s: g.random(s),
                  lambda g, s: g.random(s, dtype=np.float32)):
            s = R.choice([1, 2, 5, (2, 3), (0,), 33])
            a.state = b.state = st
            x = f(ga, s)
            y = [f(gb, None) for _ in range(count(s))]
            t.same(x.ravel().tolist(), [v.item() if hasattr(v, 'item') else v for v in y], f'ext-array:{cfg.name}', f'array {s} vs scalars')
            t.same(future(a, tail), future(b, tail), f'ext-array:{cfg.name}', f'stream position after array {s}')
        t.note(f'{cfg.name}: every shape, kept and discarded')
    return run


def shared(cfg, i):
    """several Generators and interfaces over one bit generator, and state changes under them"""
    def run(t):
        R = t.rng
        b = edgy(R, cfg)
        gens = [np.random.Generator(b), rg.ExtendedGenerator(b), np.random.Generator(b)]
        c, f = b.ctypes, b.cffi
        twin = cfg.make(0)
        twin.state = b.state
        for step in range(12):
            k = R.randrange(7)
            if k == 0:
                t.same(gens[0].random(3).tolist(), future(twin, 'ddd'), f'shared:{cfg.name}', 'numpy Generator')
            elif k == 1:
                t.same([int(x) for x in gens[1].uintegers(3, bits=32)], future(twin, '333'), f'shared:{cfg.name}', 'ExtendedGenerator')
            elif k == 2:
                t.same([int(c.next_uint64(c.state))], future(twin, '6'), f'shared:{cfg.name}', 'ctypes')
            elif k == 3:
                t.same([int(f.next_uint32(f.state))], future(twin, '3'), f'shared:{cfg.name}', 'cffi')
            elif k == 4:
                s = R.randrange(99)
                kw = {'idx': cfg.kw['idx']} if 'idx' in cfg.kw else {}
                b.seed(s, **kw)
                twin.seed(s, **kw)
            elif k == 5:
                o = cfg.make(R.randrange(99))
                future(o, ops_string(R, 7))
                b.state = o.state
                twin.state = o.state
            elif cfg.advance:
                advance(b, cfg, 1234567)
                advance(twin, cfg, 1234567)
            t.hit('shared', cfg.name, k)
        ops = ops_string(R, 20)
        t.same(future(b, ops), future(twin, ops), f'shared:{cfg.name}', 'after the interleaving')
        t.check(b.ctypes is c or int(b.ctypes.state_address) == int(c.state_address), f'shared:{cfg.name}', 'interface address moved')
    return run


def stale(cls, i):
    """views created before a state of another variant is assigned"""
    def run(t):
        R = t.rng
        bad = None
        vs = BYCLS[cls]
        for x in vs:
            for y in vs:
                if x is y:
                    continue
                b, o = x.make(3), y.make(4)
                g, c, f = np.random.Generator(b), b.ctypes, b.cffi
                b.state = o.state
                want = np.random.Generator(o)
                ok = (g.random(4) == want.random(4)).all() and (g.integers(0, M32, 4, np.uint32, True) == want.integers(0, M32, 4, np.uint32, True)).all()
                ok = ok and future(o, '66') == [int(c.next_uint64(c.state)), int(f.next_uint64(f.state))]
                ok = ok and future(o, 'r') == future(b, 'r')
                if not ok:
                    bad = bad or (x.name, y.name)
        t.check(bad is None, f'stale-view:{cls.__name__}',
                f'a Generator or interface object created before a state of another variant was assigned keeps the old functions: {bad}',
                sig=('stale', cls.__name__))
    return run


def cases(ctx):
    for c in CFGS.values():
        core = c.name in CORE
        for i in range(ctx.n(30 if core else 10, 800)):
            yield f'interleave/{c.name}/{i}', interleave(c, i)
        for i in range(ctx.n(2 if core else 1, 20)):
            yield f'shapes/{c.name}/{i}', shapes(c, i)
        for i in range(ctx.n(6 if core else 2, 100)):
            yield f'shared/{c.name}/{i}', shared(c, i)
    for cls, v in BYCLS.items():
        if len(v) > 1:
            yield f'stale/{cls.__name__}/0', stale(cls, 0)
    for i in range(ctx.n(200, 4000)):
        yield f'params/interleave/{i}', params(interleave, i)
    for i in range(ctx.n(40, 800)):
        yield f'params/shared/{i}', params(shared, i)
