"""P22: broadcast filling draws each element from its own parameters, in order."""
import math
import struct
import threading
from checks.common import *
from hist import *
import vf_bcast as V

M = 2 ** 64 - 1
PMAX = float(np.iinfo('int64').max) - np.sqrt(float(np.iinfo('int64').max)) * 10
CONSN = ['none', 'nonneg', 'pos', 'posnan', '01', 'gt01', 'gt1', 'gte1', 'poisson', 'legacy']


def ok(v, c):
    """the constraint on one value"""
    nan = v != v
    if c == 'none':
        return True
    if c == 'nonneg':
        return nan or math.copysign(1, v) > 0
    if c == 'pos':
        return nan or v > 0
    if c == 'posnan':
        return v > 0
    if c == '01':
        return 0 <= v <= 1
    if c == 'gt01':
        return 0 < v <= 1
    if c == 'gt1':
        return v > 1
    if c == 'gte1':
        return v >= 1
    return 0 <= v <= PMAX


EDGE = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 5e-324, -5e-324, 1 + 2 ** -52, 1 - 2 ** -53, float('nan'), -float('nan'), float('inf'), -float('inf'),
        PMAX, float(np.nextafter(PMAX, np.inf)), float(np.nextafter(PMAX, 0)), 1e300, -1e300, 2.0 ** 63, 7.25, 1e-300, 1e-40]


def good(R, c):
    while True:
        v = R.choice(EDGE) if R.random() < .3 else R.choice([R.random(), R.uniform(1, 9), R.expovariate(.01), float(R.randrange(5))])
        if ok(v, c):
            return v


def bad(R, c):
    vs = [v for v in EDGE if not ok(v, c)]
    return R.choice(vs) if vs else None


def goodi(R, c):
    while True:
        v = R.choice([0, 1, 2, 3, R.randrange(2 ** 40), 2 ** 63 - 1, 2 ** 53 + 1, -1, -2 ** 63, R.randrange(9)])
        if ok(float(v), c):
            return v


def badi(R, c):
    vs = [v for v in (-1, 0, 1, 2, -2 ** 63, 2 ** 63 - 1, -7) if not ok(float(v), c)]
    return R.choice(vs) if vs else None


def snap(b):
    return canon(b.state)


class Lock:
    """a lock noting which draws were made while it was held"""

    def __init__(self):
        self.held = False
        self.a = None
        self.drawn = 0

    def __enter__(self):
        assert not self.held
        self.held = True
        self.a = V.count()
        return self

    def __exit__(self, *a):
        self.held = False
        self.drawn += V.count() - self.a


def bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


class Stream:
    """model of the routines' use of the stream"""

    def __init__(self, b):
        self.b = b
        self.w = []
        self.p = 0

    def word(self):
        if self.p == len(self.w):
            self.w = self.b.random_raw(512).tolist()
            self.p = 0
        self.p += 1
        return self.w[self.p - 1]

    def call(self, kind, a=0, b=0, c=0):
        h = (a * 0x9E3779B97F4A7C15 + b * 0xC2B2AE3D27D4EB4F + c * 0x165667B19E3779F9 + kind) & M
        h ^= h >> 29
        for _ in range(1 + h % 3):
            h = (h * 0xD6E8FEB86659FD93 + self.word()) & M
        if kind in (0, 1, 2, 3, 12):
            return (h >> 11) / 9007199254740992.0
        if kind in (4, 5):
            return (h >> 40) / 16777216.0
        return h - 2 ** 64 if h >> 63 else h


def shape(R, nd=None):
    nd = R.choice([0, 1, 1, 2, 2, 3, 4]) if nd is None else nd
    return tuple(R.choice([1, 1, 2, 3, 4, 5, 0] if R.random() < .12 else [1, 2, 3, 4, 5]) for _ in range(nd))


def sub(R, full):
    """a shape that broadcasts to (at most) full"""
    s = list(full[R.randrange(len(full) + 1) if R.random() < .3 else 0:])
    return tuple(1 if R.random() < .3 else x for x in s)


def layout(R, v):
    """the array v in another memory layout"""
    z = R.randrange(9)
    if v.ndim == 0:
        return v, 'plain'
    if z == 1:
        return np.asfortranarray(v), 'fortran'
    if z == 2:
        w = np.empty(tuple(2 * x for x in v.shape), v.dtype)
        w[...] = np.array(3).astype(v.dtype)
        w = w[tuple(slice(None, None, 2) for _ in v.shape)]
        w[...] = v
        return w, 'strided'
    if z == 3:
        w = np.ascontiguousarray(v[..., ::-1])[..., ::-1]
        return w, 'reversed'
    if z == 4:
        return v.astype(v.dtype.newbyteorder()), 'byteswapped'
    if z == 5:
        raw = np.empty(v.nbytes + 1, np.uint8)
        w = raw[1:].view(v.dtype).reshape(v.shape)
        w[...] = v
        return w, 'unaligned'
    if z == 6:
        w = v.copy()
        w.flags.writeable = False
        return w, 'readonly'
    if z == 7 and v.size:
        ax = R.randrange(v.ndim)
        if v.shape[ax] > 1:
            one = np.take(v, [0], ax)
            w = np.broadcast_to(one, v.shape)
            return w, 'stride0'
    return v, 'plain'


class Subclass(np.ndarray):
    pass


def param(R, kind, cons, shp, spoil, narrow=False):
    """a parameter of a given shape; returns (object, values as the routine should see them, is it acceptable, scalar, note)
    kind: d, f or i; spoil: put in a violation"""
    n = int(np.prod(shp, dtype=np.int64))
    if kind == 'i':
        vals = [goodi(R, cons) for _ in range(n)]
        b = badi(R, cons) if spoil else None
    else:
        vals = [good(R, cons) for _ in range(n)]
        b = bad(R, cons) if spoil else None
    if b is not None and n:
        vals[R.choice([0, n - 1, R.randrange(n)])] = b
    if shp == ():
        v = vals[0]
        z = R.randrange(5)
        if kind == 'i':
            obj = [v, np.int64(v), np.array(v), v, np.array(v).astype('>i8')][z]
        else:
            obj = [v, np.float64(v), np.array(v), v, np.array(v).astype('>f8')][z]
            if z == 3 and v == v and abs(v) < 2 ** 52 and v == int(v) and not (v == 0 and math.copysign(1, v) < 0):
                obj = int(v)
        return obj, [v], True, f'scalar{z}'
    if kind == 'i':
        arr = np.array(vals, dtype=np.int64).reshape(shp)
        z = R.randrange(6)
        if z == 0:
            return arr.tolist() if 0 not in shp else arr, vals, True, 'list'
        if z == 1:
            for dt in R.sample(['i1', 'i2', 'i4', 'u1', 'u2', 'u4', '?'], 7):
                c = arr.astype(dt)
                if np.array_equal(c.astype(np.int64), arr):
                    arr = c
                    break
        if z == 2 and R.random() < .5:
            return arr.astype(np.uint64), vals, False, 'uint64'
        if z == 3 and R.random() < .5:
            return arr.astype(np.float64), vals, False, 'float64'
    else:
        arr = np.array(vals, dtype=np.float64).reshape(shp)
        z = R.randrange(8)
        if z == 0:
            return arr.tolist() if 0 not in shp else arr, vals, True, 'list'
        if z == 1:
            for dt in R.sample(['f4', 'f2', 'i4', 'i8', 'u1', 'u8', '?'], 7):
                with np.errstate(all='ignore'):
                    c = arr.astype(dt)
                if np.array_equal(c.astype(np.float64), arr) and not np.signbit(arr).any():
                    arr = c
                    break
        if z == 2 and kind == 'd' and R.random() < .5:
            dt = R.choice(['g', 'O', 'c16', 'S8'])
            return (np.full(shp, b'1.5') if dt == 'S8' else arr.astype(dt)), vals, False, dt
        if z == 3:
            return arr.view(Subclass), vals, True, 'subclass'
    w, note = layout(R, arr)
    return w, np.asarray(w).astype(np.int64 if kind == 'i' else np.float64).ravel().tolist(), True, f'{arr.dtype.kind}{arr.dtype.itemsize} {note}'


def output(R, shp, dt, zone, need_c):
    """an output array; returns (out, acceptable)"""
    n = int(np.prod(shp, dtype=np.int64))
    fillv = np.array(7.5).astype(dt)
    if zone == 'good':
        return np.full(shp, fillv), True
    if zone == 'fortran':
        o = np.full(shp, fillv, order='F')
        return o, not need_c or bool(o.flags.c_contiguous)
    if zone == 'strided':
        o = np.full(tuple(2 * x for x in shp), fillv)[(...,) + tuple(slice(None, None, 2) for _ in shp)]
        return o, bool(o.flags.c_contiguous)
    if zone == 'readonly':
        o = np.full(shp, fillv)
        o.flags.writeable = False
        return o, False
    if zone == 'dtype':
        return np.full(shp, R.choice(['f4', 'f8', 'i8', 'u8', 'c16', 'g', 'O']) if R.random() < .99 else 'i4'), None
    if zone == 'byteswapped':
        return np.full(shp, fillv).astype(np.dtype(dt).newbyteorder()), False
    if zone == 'unaligned':
        o = np.empty(n * np.dtype(dt).itemsize + 1, np.uint8)[1:].view(dt).reshape(shp)
        o[...] = fillv
        return o, bool(o.flags.aligned)
    if zone == 'view':                     # a contiguous window in a larger array
        big = np.full(n + 20, fillv)
        return big[10:10 + n].reshape(shp), True
    if zone == 'list':
        return R.choice([[0.0] * n, 3.0, 'abc', memoryview(bytearray(8)), (1,)]), False
    raise AssertionError(zone)


ZONES = ['good', 'good', 'good', 'view', 'view', 'fortran', 'strided', 'readonly', 'dtype', 'byteswapped', 'unaligned', 'list']


def sizearg(R, shp):
    z = R.randrange(4)
    if len(shp) == 1 and z == 0:
        return shp[0]
    if len(shp) == 1 and z == 1:
        return np.int64(shp[0])
    return list(shp) if z == 2 else shp


def one(t, R, make, big=False):
    fam = R.choice(['cont', 'cont', 'cont', 'contf', 'disc', 'disc', 'fill'])
    lock = Lock()
    b, twin = make(), make()
    pre = R.randrange(3)
    if pre:
        b.random_raw(pre), twin.random_raw(pre)
    g = V.Gen(b, lock)
    st = Stream(twin)
    kinds, cons = [], []
    if fam == 'cont':
        kinds = ['d'] * R.choice([0, 1, 1, 2, 2, 2, 3, 3, 3])
    elif fam == 'contf':
        kinds = ['f']
    elif fam == 'disc':
        kinds = list(R.choice(['', 'd', 'dd', 'dd', 'di', 'di', 'i', 'iii', 'iii']))
    cons = [R.choice(CONSN) for _ in kinds]
    if fam == 'contf':                             # the Poisson bounds are not single precision numbers
        cons = [R.choice(CONSN[:-2])]
    if R.random() < .2:
        cons = ['none'] * len(kinds)
    # shapes
    full = shape(R) if not big else R.choice([(4099,), (65, 67), (3, 1, 1500), (2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2)])
    allscalar = bool(kinds) and R.random() < .2
    shps = [() if allscalar or R.random() < .2 else sub(R, full) for _ in kinds]
    if R.random() < .06 and kinds:                 # incompatible shapes
        j = R.randrange(len(full)) if full else 0
        shps[R.randrange(len(shps))] = tuple(x + 2 * (i == j) for i, x in enumerate(full)) or (2,)
    spoil = R.choice(range(len(kinds))) if kinds and R.random() < .2 else None
    ps = [param(R, k, c, s, i == spoil) for i, (k, c, s) in enumerate(zip(kinds, cons, shps))]
    scal = all(s == () for s in shps)
    try:
        bs = np.broadcast_shapes(*shps)
    except ValueError:
        bs = None
    # size and out
    size = out = osh = None
    target = None
    if R.random() < .6 or (big and scal):
        z = R.random()
        if scal:
            target = full
        elif z < .6:
            target = bs if bs is not None else full
        elif z < .8 and not big:                   # larger than the parameters: extra leading or stretched axes
            target = tuple(R.randrange(1, 4) for _ in range(R.randrange(3))) + tuple((3 if x == 1 and R.random() < .5 else x) for x in (bs or ()))
        else:
            x = list(bs or (2,))
            y = R.randrange(4)
            if y == 0 and x:
                x[R.randrange(len(x))] = 1        # smaller than the parameters
            elif y == 1:
                x = x[1:]
            elif y == 2 and x:
                x[R.randrange(len(x))] += 1
            elif y == 3 and x:
                x[R.randrange(len(x))] = 0
            target = tuple(x)
        size = sizearg(R, target)
    dt = np.float32 if fam == 'contf' else np.float64
    which = None
    if fam == 'fill':
        which = R.choice(['double_fill', 'float_fill', 'float_fill_from_double'])
        dt = np.float64 if which == 'double_fill' else np.float32
    good_out = True
    zone = None
    if fam != 'disc' and R.random() < .5:
        zone = R.choice(ZONES)
        osh = target if target is not None and R.random() < .85 else (bs if bs is not None and not scal and R.random() < .7 else shape(R))
        out, good_out = output(R, osh, dt, zone, fam != 'fill' and len(kinds) > 0)
        if good_out is None:
            good_out = out.dtype == dt
        if target is not None and good_out and osh != target:
            good_out = False
        if isinstance(out, np.ndarray) and good_out:
            target = osh
    # expected outcome
    why = None
    if bs is None:
        why = 'parameters do not broadcast'
    elif not all(p[2] for p in ps):
        why = 'dtype of a parameter'
    elif any(not ok(np.float32(v).item() if k == 'f' else float(v), c) for p, k, c in zip(ps, kinds, cons) for v in p[1]):
        why = 'constraint'
    elif not good_out:
        why = 'output'
    elif target is not None and not scal:
        try:
            if np.broadcast_shapes(target, bs) != tuple(target):
                why = 'size'
        except ValueError:
            why = 'size'
    before = snap(b)
    oimg = out.tobytes() if isinstance(out, np.ndarray) else None
    base = out.base.copy() if isinstance(out, np.ndarray) and out.base is not None else None
    V.reset()
    args = [p[0] for p in ps] + [0.0] * (3 - len(ps))
    cc = cons + ['none'] * (3 - len(cons))
    abc = (args[0], cc[0], args[1], cc[1], args[2], cc[2])
    descr = (f'{which or fam}{"".join(kinds)}({", ".join(f"{p[3]} {s} {c}" for p, s, c in zip(ps, shps, cons))}; size={size!r}, '
             f'out={None if out is None else zone + " " + str(osh)})')
    nm = f'{which or fam}-{"".join(kinds) or "0"}'
    try:
        if fam == 'cont':
            got = g.cont(len(kinds), *abc, size, out)
        elif fam == 'contf':
            got = g.cont_f(args[0], cc[0], size, out)
        elif fam == 'disc':
            got = g.disc(kinds.count('d'), kinds.count('i'), *abc, size)
        else:
            got = getattr(g, which)(size, out)
        err = None
    except (ValueError, TypeError, OverflowError) as e:
        err = e
    t.evals += 1
    t.check(not lock.held, 'lock-kept', f'{descr}: lock still held')
    n = V.count()
    if err is not None:
        if why is None:
            t.fail(f'refused:{nm}', f'{descr}: refused with {type(err).__name__}: {err}')
        t.check(n == 0 and snap(b) == before, f'drew-when-refused:{nm}', f'{descr}: {n} draws although refused ({why})')
        if oimg is not None:
            t.check(out.tobytes() == oimg, f'wrote-when-refused:{nm}', f'{descr}: output changed although refused')
        t.hit('refused', nm, why)
        return
    if why is not None:
        t.fail(f'accepted:{nm}:{why}', f'{descr}: accepted in spite of: {why}; result {got!r:.200}')
    # expected values
    t.check(lock.drawn == n, f'unlocked:{nm}', f'{descr}: {n - lock.drawn} of {n} draws without the lock')
    kind = {'cont': {0: 0, 1: 1, 2: 2, 3: 3}.get(len(kinds)), 'contf': 5, 'disc': {'': 6, 'd': 7, 'dd': 8, 'di': 9, 'i': 10, 'iii': 11}.get(''.join(kinds)),
            'fill': {'double_fill': 12, 'float_fill': 4, 'float_fill_from_double': 0}.get(which)}[fam]
    rs = target if target is not None else (() if scal else bs)
    if out is not None:
        t.check(got is out, f'not-out:{nm}', f'{descr}: the result is not the output array given')
    if size is None and out is None and scal:
        t.check(type(got) in (float, int), f'type:{nm}', f'{descr}: result of type {type(got).__name__}')
        order = 'C'
    else:
        t.check(isinstance(got, np.ndarray) and got.shape == tuple(rs), f'shape:{nm}', f'{descr}: shape {getattr(got, "shape", None)}, expected {rs}')
        rdt = np.int64 if fam == 'disc' else dt
        t.check(got.dtype == rdt, f'dtype:{nm}', f'{descr}: dtype {got.dtype}')
        order = 'C' if got.flags.c_contiguous else 'F'
    cols = []
    for p, k, s in zip(ps, kinds, shps):
        if k == 'i':
            a = np.array([v & M for v in p[1]], dtype=np.uint64)
        elif k == 'f':
            a = np.array(p[1], dtype=np.float64)
            with np.errstate(all='ignore'):
                a = a.astype(np.float32).astype(np.float64).view(np.uint64)
        else:
            a = np.array(p[1], dtype=np.float64).view(np.uint64)
        cols.append(np.broadcast_to(a.reshape(s), rs).ravel().tolist())
    m = int(np.prod(rs, dtype=np.int64))
    exp, lg = [], []
    for i in range(m):
        a = [c[i] for c in cols]
        lg.append([kind] + a + [0] * (3 - len(a)))
        exp.append(st.call(kind, *a))
    if which == 'float_fill_from_double':
        exp = [np.float32(v).item() for v in exp]
    L = V.log().tolist()
    t.obs(m)
    t.same(n, m, f'count:{nm}', descr)
    t.same(L, lg, f'arguments:{nm}', descr)
    vals = [got] if not isinstance(got, np.ndarray) else got.ravel(order=order).tolist()
    t.same(vals, exp, f'values:{nm}', descr)
    # the stream goes on where the last routine stopped
    t.same(int(b.random_raw()), st.word(), f'stream:{nm}', descr)
    if zone == 'view' and base is not None:
        o = out.base
        lo = 10 if o.ndim == 1 else 0
        if o.ndim == 1 and o.size == m + 20:
            t.check(o[:10].tobytes() == base[:10].tobytes() and o[10 + m:].tobytes() == base[10 + m:].tobytes(), f'outside:{nm}', f'{descr}: wrote outside the output')
    t.hit(nm, len(rs), zone, size is not None, scal, order)
    for p, c in zip(ps, cons):
        t.hit(nm, p[3], c)


def case(names, k, seed, big):
    def run(t):
        R = t.rng
        for i in range(k):
            c = names[R.randrange(len(names))]
            s = R.getrandbits(60)
            one(t, R, lambda: c(s), big)
    return run


def constraints(cons):
    """scalar and array constraint checks agree with the definition for every edge value and position"""
    def run(t):
        R = t.rng
        for v in EDGE + [R.uniform(-3, 3) for _ in range(30)] + [float(x) for x in range(-3, 4)]:
            want = ok(v, cons)
            res = []
            forms = [('scalar', lambda: V.check_scalar(v, cons)), ('array', lambda: V.check_array(np.array([v]), cons)), ('0-d', lambda: V.check_array(np.array(v), cons))]
            base = [good(R, cons) for _ in range(6)]
            for p in (0, 3, 6):
                x = base[:p] + [v] + base[p:]
                forms.append((f'position {p}', lambda x=x: V.check_array(np.array(x), cons)))
            forms.append(('strided', lambda: V.check_array(np.array([base, base[:5] + [v]])[:, ::-1], cons)))
            if abs(v) < 2 ** 52 and v == int(v) and not (v == 0 and math.copysign(1, v) < 0):
                forms.append(('int64', lambda: V.check_array(np.array([int(v)]), cons)))
            for nme, f in forms:
                try:
                    f()
                    r = True
                except ValueError as e:
                    r = False
                    t.check('v' in str(e), f'message:{cons}', f'{nme} {v!r}: {e}')
                t.obs(1)
                t.check(r == want, f'constraint:{cons}:{nme.split()[0]}', f'{nme} value {v!r} is {"accepted" if r else "refused"} under {cons}')
                t.hit(cons, nme, want)
        V.check_array(np.empty((0,)), cons)
    return run


def stock(t):
    """the routines of the test shim return known functions of their parameters"""
    from randomgen.tests._shims import ShimGenerator
    R = t.rng
    g = ShimGenerator(rg.Xoshiro256(1))
    for _ in range(40):
        full = shape(R, R.choice([1, 2, 3]))
        a, b, c = (np.random.RandomState(R.getrandbits(30)).uniform(.1, .9, sub(R, full)) for _ in range(3))
        if not (a.ndim and b.ndim):
            continue
        t.same(g.cont_2(a, b).tolist(), (a + b).tolist(), 'stock:cont_2', f'{a.shape} {b.shape}')
        o = np.zeros((a + b).shape)
        r = g.cont_2(a, b, out=o)
        t.check(r is o, 'stock:out', f'cont_2 {a.shape} {b.shape} with out')
        t.same(o.tolist(), (a + b).tolist(), 'stock:out', f'{a.shape} {b.shape}')
        t.same(g.cont_3(a, b, c + 1).tolist(), (a + b + (c + 1)).tolist(), 'stock:cont_3', f'{a.shape} {b.shape} {c.shape}')
        i, j, k = ((x * 100 + 1).astype(np.int64) for x in (a, b, c))
        t.same(g.disc_iii(i, j, k).tolist(), (i + j + k).tolist(), 'stock:disc_iii', f'{a.shape} {b.shape} {c.shape}')
        t.same(g.disc_di(a, j).tolist(), (2 * a * j).astype(np.int64).tolist(), 'stock:disc_di', f'{a.shape} {b.shape}')
        t.same(g.cont_1_float(a.astype(np.float32)).tolist(), a.astype(np.float32).tolist(), 'stock:cont_1_float', f'{a.shape}')
        t.obs(6)
        t.hit('stock', full)


def threads(t):
    """fillers of one generator in several threads keep each call's elements together"""
    R = t.rng
    b, twin = rg.Xoshiro256(5), rg.Xoshiro256(5)
    lock = threading.Lock()
    V.reset()
    gs = [V.Gen(b, lock) for _ in range(4)]
    res = []

    def work(k):
        a = np.full((40,), float(k + 1))
        for i in range(20):
            a[:] = k * 1000 + i + 1
            res.append((k, i, gs[k].cont(1, a, 'pos', 0.0, 'none', 0.0, 'none', None, None)))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
    for x in ts:
        x.start()
    for x in ts:
        x.join()
    L = V.log()
    t.same(len(L), 3200, 'threads:count', 'draws of 4 threads')
    rec = L[:, 1].copy().view(np.float64).reshape(-1, 40)
    t.check(bool((rec == rec[:, :1]).all()), 'threads:interleaved', 'the elements of one call are mixed with those of another')
    st = Stream(twin)
    vals = {}
    for r in rec[:, 0].tolist():
        vals[r] = [st.call(1, bits(r)) for _ in range(40)]
    for k, i, a in res:
        t.same(a.tolist(), vals.get(k * 1000 + i + 1.0), 'threads:values', f'thread {k} call {i}')
    t.obs(3200)
    t.hit('threads')


def cases(ctx):
    names = [rg.Xoshiro256, rg.SFC64, rg.MT64, rg.JSF, rg.AESCounter]
    for c in CONSN:
        yield f'constraint/{c}', constraints(c)
    for i in range(ctx.n(6, 60)):
        yield f'threads/{i}', threads
    for i in range(ctx.n(6, 40)):
        yield f'stock/{i}', stock
    for i in range(ctx.n(1200, 14000)):
        yield f'fill/{i}', case(names, 40, i, False)
    for i in range(ctx.n(64, 900)):
        yield f'large/{i}', case(names, 3, i, True)
