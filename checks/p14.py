"""P14: ExtendedGenerator.uintegers / .random are exact functions of the words and move the stream exactly."""
import threading
from checks.common import *
from hist import *

SIZES = [None, None, 0, 1, 2, 3, 5, 9, 17, 64, (), (0,), (1,), (4,), (2, 3), (3, 0, 2), (1, 1, 5), (2, 2, 2, 2), [2, 2], [7]]
LD = np.longdouble
DT = {'float64': ['d', 'float64', np.float64, np.dtype('f8'), float, '=f8'],
      'float32': ['f', 'float32', np.float32, np.dtype('f4')],
      'longdouble': ['longdouble', np.longdouble, 'g', np.dtype('longdouble')]}
NPT = {'float64': np.float64, 'float32': np.float32, 'longdouble': np.longdouble}


def f32(u):
    return np.float32(u >> 9) * np.float32(2.0 ** -23)


def f80(u):
    return LD(np.uint64(u)) * LD(2) ** -64


def f32b(u):
    return np.float32(u >> 8) * np.float32(2.0 ** -24)


REF = {'u64': lambda md: np.uint64(md.next64()), 'u32': lambda md: np.uint32(md.next32()), 'float64': lambda md: np.float64(md.double()),
       'float32': lambda md: f32(md.next32()), 'longdouble': lambda md: f80(md.next64())}


def shape_of(size):
    return None if size is None else (int(size),) if isinstance(size, (int, np.integer)) else tuple(size)


def nelem(sh):
    return 1 if sh is None else int(np.prod(sh, dtype=np.int64))


def memory_order(o):
    """the elements of a contiguous array in the order they lie in memory"""
    return o.ravel(order='C' if o.flags.c_contiguous else 'F')


def guarded(R, npt, sh):
    """an output array lying inside a larger buffer, C or F ordered, with guard zones"""
    n = nelem(sh)
    pad = R.randrange(1, 9)
    base = np.empty(n + 2 * pad, npt)
    base[:] = npt(7.5)
    o = base[pad:pad + n].reshape(sh, order=R.choice('CF') if len(sh) > 1 else 'C')
    return base, pad, o


def guards_ok(base, pad, n):
    return bool((base[:pad] == base.dtype.type(7.5)).all() and (base[pad + n:] == base.dtype.type(7.5)).all())


def bad_outs(R, npt, sh):
    """(name, out, size, buffers to watch)"""
    n = nelem(sh)
    other = {np.float64: np.float32, np.float32: np.float64, np.longdouble: np.float64}[npt]
    wrong = np.full(sh, 3.25, other)
    yield 'dtype', wrong, None, wrong
    wrong = np.full(sh, 3, np.int64)
    yield 'int', wrong, None, wrong
    if npt is not np.longdouble:
        sw = np.full(sh, 3.25, np.dtype(npt).newbyteorder())
        yield 'swapped', sw, None, sw
    ro = np.full(sh, 3.25, npt)
    ro.flags.writeable = False
    yield 'readonly', ro, None, ro
    buf = np.full(tuple(2 * x for x in sh) or (2,), 3.25, npt)
    if sh and n > 1:
        yield 'strided', buf[tuple(slice(None, None, 2) for _ in sh)], None, buf
        rev = np.full(sh, 3.25, npt)
        yield 'reversed', rev[::-1], None, rev
    raw = np.zeros(n * np.dtype(npt).itemsize + 1, np.uint8)
    un = raw[1:].view(npt).reshape(sh)
    if n:
        yield 'misaligned', un, None, raw
    good = np.full(sh, 3.25, npt)
    yield 'size', good, R.choice([n + 1, sh + (1,), sh + (2,), (n + 3,)]), good
    if len(sh) > 1 and sh != sh[::-1]:
        yield 'size-t', good, sh[::-1], good
    for k, v in (('list', [0.0] * n), ('int-obj', 5), ('bytes', bytearray(8 * n)), ('str', 'x')):
        yield 'obj-' + k, v, None, None


BADCALLS = [('bits', lambda e: e.uintegers(3, bits=16)), ('bits', lambda e: e.uintegers(bits=63)), ('bits', lambda e: e.uintegers(bits=0)),
            ('bits', lambda e: e.uintegers((2, 2), bits=-64)), ('bits', lambda e: e.uintegers(4, bits=2 ** 40)),
            ('bits', lambda e: e.uintegers(bits='64')), ('bits', lambda e: e.uintegers(2, bits=1)), ('bits', lambda e: e.uintegers(2, bits=128)),
            ('bits', lambda e: e.uintegers(2, bits=2 ** 32 + 64)), ('bits', lambda e: e.uintegers(2, bits=96)),
            ('size', lambda e: e.uintegers(-1)), ('size', lambda e: e.uintegers((2, -3), bits=32)), ('size', lambda e: e.uintegers(2.5)),
            ('size', lambda e: e.random(-2)), ('size', lambda e: e.random((1, -1), dtype='f')), ('size', lambda e: e.random('3')),
            ('size', lambda e: e.random(-1, dtype='longdouble')), ('size', lambda e: e.random(2.0)),
            ('dtype', lambda e: e.random(dtype='int64')), ('dtype', lambda e: e.random(3, dtype=np.float16)),
            ('dtype', lambda e: e.random(2, dtype=complex)), ('dtype', lambda e: e.random(dtype=object)),
            ('dtype', lambda e: e.random(dtype=bool)), ('dtype', lambda e: e.random(3, dtype='nope'))]


def one_call(t, R, e, md, key):
    kind = R.choice(['u64', 'u32', 'float64', 'float32', 'longdouble'])
    size = R.choice(SIZES)
    sh = shape_of(size)
    n = nelem(sh)
    ref = REF[kind]
    how = 'plain'
    if kind in ('u64', 'u32'):
        bits = 64 if kind == 'u64' else 32
        if isinstance(size, int) and R.random() < .3:
            size = np.int64(size)
        if bits == 64 and R.random() < .4:
            got = e.uintegers(size)
        else:
            got = e.uintegers(size, bits=R.choice([bits, np.int64(bits), np.uint8(bits)]))
        npt = np.uint64 if bits == 64 else np.uint32
    else:
        npt = NPT[kind]
        kw = {} if kind == 'float64' and R.random() < .3 else {'dtype': R.choice(DT[kind])}
        if R.random() < .4 and sh is not None:
            how = 'out'
            base, pad, o = guarded(R, npt, sh)
            if R.random() < .5:
                got = e.random(out=o, **kw)
            else:
                got = e.random(size, out=o, **kw)
            t.check(got is o, f'out-identity:{key}:{kind}', f'random(out=) of shape {sh} returned another object')
            want = [ref(md) for _ in range(n)]
            t.same(memory_order(o), np.array(want, npt).reshape(-1), f'value:{key}:{kind}:out', f'random(out=<{sh} {"F" if not o.flags.c_contiguous else "C"}>, dtype={kind})')
            t.check(guards_ok(base, pad, n), f'out-guard:{key}:{kind}', f'random(out=) of shape {sh} wrote outside the array')
            t.hit(key, kind, how, len(sh), n > 0, bool(o.flags.c_contiguous))
            return kind
        got = e.random(size, **kw)
    want = [ref(md) for _ in range(n)]
    if sh is None:
        ok = type(got) is int if kind[0] == 'u' else isinstance(got, float) if kind != 'longdouble' else isinstance(got, np.longdouble)
        t.check(ok, f'type:{key}:{kind}', f'scalar {kind} has type {type(got)}')
        t.check(got == want[0], f'value:{key}:{kind}', f'scalar {kind}: got {got!r} expected {want[0]!r}')
    else:
        t.check(isinstance(got, np.ndarray) and got.dtype == np.dtype(npt) and got.shape == sh, f'type:{key}:{kind}',
                lambda: f'{kind} size {size}: got {type(got)} {getattr(got, "dtype", None)} {getattr(got, "shape", None)}')
        t.same(got.ravel(), np.array(want, npt).reshape(-1), f'value:{key}:{kind}', f'{kind} size {size}')
    if kind[0] != 'u':
        t.check(bool(np.all((np.asarray(got) >= 0) & (np.asarray(got) < 1))), f'range:{key}:{kind}', f'{kind} outside [0,1)')
    t.hit(key, kind, how, None if sh is None else len(sh), n > 0)
    return kind


def sequence(cfg, i, n):
    def run(t):
        R = t.rng
        seed = hostile_seed(R)
        b = cfg.make(seed)
        md = cfg.model(seed) if cfg._model else cfg.load(b.state)
        e = rg.ExtendedGenerator(b)
        last = None
        for k in range(n):
            if R.random() < .15:                    # a refused call in between leaves everything alone
                what, f = R.choice(BADCALLS)
                try:
                    f(e)
                except (ValueError, TypeError, OverflowError):
                    t.hit(cfg.name, 'refused', what)
                else:
                    t.fail(f'accepted:{what}', f'invalid call #{BADCALLS.index((what, f))} accepted')
                t.obs()
            if R.random() < .15:
                npt = R.choice(list(NPT.values()))
                sh = R.choice([(3,), (2, 3), (), (4, 1, 2), (5,)])
                name, o, size, watch = R.choice(list(bad_outs(R, npt, sh)))
                before = None if watch is None else watch.tobytes()
                try:
                    e.random(size, dtype=npt, out=o)
                except (ValueError, TypeError):
                    t.hit(cfg.name, 'refused-out', name, npt.__name__)
                else:
                    t.fail(f'accepted-out:{name}', f'random(size={size}, dtype={npt.__name__}, out=<{name} of shape {sh}>) accepted')
                t.check(watch is None or watch.tobytes() == before, f'refused-written:{name}', f'refused out ({name}) was written to')
            if R.random() < .1:                     # the same stream seen from outside
                ops = ops_string(R, 3)
                t.same(future(b, ops), mixed_model(md, ops), f'position:{cfg.name}', f'seed {seed}: outside draws {ops} after {last}')
            last = one_call(t, R, e, md, cfg.name)
        ops = ops_string(R, 12)
        t.same(future(b, ops), mixed_model(md, ops), f'position:{cfg.name}', f'seed {seed}: stream after the calls')
        t.note(f'{cfg.name} seed {seed}: {n} calls of uintegers/random match the model word for word')
    return run


WORDS = [0, 1, 2, M64, M64 - 1, M64 >> 1, (M64 >> 1) + 1, 1 << 63, (1 << 64) - (1 << 11), (1 << 64) - (1 << 10), (1 << 11) - 1, 1 << 11,
         M32, M32 << 32, (1 << 32) | M32, 511, 512, 1 << 8, M64 - 511, M32 - 255, M32 - 511, M32 - 256]


class Script:
    """model of a user generator delivering scripted words"""

    def __init__(self, words):
        self.w, self.i = words, 0

    def __call__(self, _p=None):
        v = self.w[self.i % len(self.w)]
        self.i += 1
        return v

    def next64(self):
        return self() & M64

    def next32(self):
        return self() & M32

    def double(self):
        return (self() >> 11) * 2.0 ** -53


def extreme(i):
    def run(t):
        R = t.rng
        ws = [R.choice(WORDS) if R.random() < .8 else hostile_int(R, 64) for _ in range(97)]
        a, md = Script(ws), Script(ws)
        b = rg.UserBitGenerator(a, next_64=a, next_32=lambda p: a(p) & M32, next_double=lambda p: (a(p) >> 11) * 2.0 ** -53)
        e = rg.ExtendedGenerator(b)
        for _ in range(40):
            one_call(t, R, e, md, 'scripted')
            t.check(a.i == md.i, 'consumed:scripted', f'{a.i} words consumed, {md.i} expected')
        for u in ws:
            t.hit('word', u)
    return run


def big(cfg, kind, n):
    """long arrays against the stream read through NumPy's own Generator"""
    def run(t):
        seed = t.rng.getrandbits(40)
        b, tw = cfg.make(seed), cfg.make(seed)
        e, g = rg.ExtendedGenerator(b), np.random.Generator(tw)
        if kind == 'u64':
            got, want = e.uintegers(n), g.integers(0, M64, n, np.uint64, True)
        elif kind == 'u32':
            got, want = e.uintegers(n, bits=32), g.integers(0, M32, n, np.uint32, True)
        elif kind == 'float64':
            got, want = e.random(n), g.random(n)
        elif kind == 'float32':
            u = g.integers(0, M32, n, np.uint32, True)
            got, want = e.random(n, dtype='f'), (u >> np.uint32(9)).astype(np.float32) * np.float32(2.0 ** -23)
        else:
            u = g.integers(0, M64, n, np.uint64, True)
            got, want = e.random(n, dtype='longdouble'), u.astype(LD) * LD(2) ** -64
        t.check(got.shape == want.shape and got.dtype == want.dtype, f'big-type:{kind}', f'{got.shape} {got.dtype}')
        bad = np.flatnonzero(got != want)
        t.obs(n)
        t.check(len(bad) == 0, f'big:{cfg.name}:{kind}', lambda: f'{len(bad)} of {n} differ, first at {bad[0]}: {got[bad[0]]!r} expected {want[bad[0]]!r}')
        ops = ops_string(t.rng, 9)
        t.same(future(b, ops), future(tw, ops), f'big-position:{cfg.name}:{kind}', f'after {n}')
        t.hit('big', cfg.name, kind, n)
    return run


def cases(ctx):
    for i in range(ctx.n(3, 40)):
        for c in CFGS.values():
            yield f'seq/{c.name}/{i}', sequence(c, i, ctx.n(25, 40))
    for i in range(ctx.n(60, 800)):
        yield f'extreme/{i}', extreme(i)
    names = ['PCG64', 'SFC64', 'Xoshiro256', 'Philox4x64', 'MT19937', 'DSFMT', 'LXM']
    for c in names:
        if c not in CFGS:
            continue
        for kind in ('u64', 'u32', 'float64', 'float32', 'longdouble'):
            for n in ctx.n([70001], [70001, 1 << 20, (1 << 21) + 3]):
                yield f'big/{c}/{kind}/{n}', big(CFGS[c], kind, n)
