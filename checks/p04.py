"""P04: equivalent spellings of keys, counters, constants, distances and seeds; refusals of everything else."""
import decimal
import fractions
from checks.common import *
from hist import *

KEYED = [c for c in CFGS.values() if c.keyed]
ARR = [c for c in KEYED if c.cls is not rg.Squares]


def wordlist(v, bits, size=64):
    return [(v >> (size * i)) & ((1 << size) - 1) for i in range(bits // size)]


def spellings(R, v, bits, arrays):
    """(name, object) pairs, all denoting v"""
    out = [('int', v)]
    for dt in (np.uint64, np.int64, np.uint32, np.int32, np.uint16, np.int8):
        if v <= np.iinfo(dt).max:
            out.append((dt.__name__, dt(v)))
    if v < 2:
        out.append(('bool', bool(v)))
    if not arrays:
        return out
    w = wordlist(v, max(bits, 64))
    full = np.array(w, dtype=np.uint64)
    out.append(('array', full))
    ro = full.copy()
    ro.flags.writeable = False
    out.append(('readonly', ro))
    big = np.full(2 * len(w) + 1, 0xDEADBEEFDEADBEEF, dtype=np.uint64)
    big[1::2][:len(w)] = full
    out.append(('strided', big[1::2][:len(w)]))
    out.append(('reversed', full[::-1].copy()[::-1]))
    raw = np.zeros(8 * len(w) + 3, dtype=np.uint8)
    un = raw[3:].view(np.uint64) if False else np.frombuffer(b'xyz' + full.tobytes(), dtype=np.uint64, offset=3)
    out.append(('unaligned', un))
    out.append(('list', list(w)))
    out.append(('tuple', tuple(w)))
    out.append(('mixed-list', [R.choice([int, np.uint64])(x) for x in w]))
    out.append(('mixed-list2', [x if x > 1 << 62 else R.choice([np.int64, np.uint64, int])(x) for x in w]))
    t = list(w)
    while len(t) > 1 and t[-1] == 0:
        t.pop()
    if len(t) < len(w):
        out.append(('short', np.array(t, dtype=np.uint64)))
        out.append(('short-list', t))
    if all(x == int(float(x)) and x < 1 << 63 for x in w):
        out.append(('float-list', [float(x) for x in w]))
    return out


def readback(b, name):
    st = b.state
    c = type(b).__name__
    s = st['state'] if c != 'AESCounter' else st['s']
    cat = lambda a, n, z=64: sum(int(x) << (z * i) for i, x in enumerate(list(a)[:n]))
    if c == 'AESCounter':
        return cat(s['seed'], 2) if name == 'key' else cat(s['counter'], 2)
    if c == 'ChaCha':
        return cat(s['keysetup'], 8, 32) if name == 'key' else cat(s['ctr'], 2)
    if c == 'SPECK128':
        return None if name == 'key' else cat(s['ctr'], 2)
    if c in ('Philox', 'ThreeFry'):
        w = st['width']
        return cat(s[{'key': 'key', 'counter': 'counter'}[name]], 99, w)
    if c == 'Squares':
        return int(s[name])
    return None


def numbers(cfg, i):
    def run(t):
        R = t.rng
        key = key_of(cfg, R)
        ctr = hostile_int(R, cfg.ctr_bits) if cfg.ctr_bits else None
        if R.random() < .35:        # words that look special to a converter
            ws = [R.choice([0, 1, M64, 1 << 63, (1 << 63) + 1, (1 << 53) + 1, (1 << 62) + 3, R.getrandbits(64)]) for _ in range(max(1, cfg.key_bits // 64))]
            key = cat(ws) & ((1 << cfg.key_bits) - 1)
            if cfg.cls is rg.Squares:
                key |= 1
        arrays = cfg.cls is not rg.Squares
        ops = ops_string(R, 24)
        want = mixed_model(cfg.keyed(key, ctr if ctr is not None else 0), ops)
        ks = spellings(R, key, cfg.key_bits, arrays)
        cs = spellings(R, ctr, cfg.ctr_bits, arrays) if ctr is not None else [('none', None)]
        pairs = [(k, R.choice(cs)) for k in ks] + [(R.choice(ks), c) for c in cs]
        reused = cfg.make(3)
        first = None
        for (kn, k), (cn, c) in pairs:
            kw = {'key': k}
            if c is not None:
                kw['counter'] = c
            frozen = canon(k), canon(c)
            if R.random() < .6:
                b = cfg.cls(**kw, **cfg.kw)
            else:
                b = reused
                future(b, ops_string(R, R.randrange(9)))
                b.seed(**kw)
            what = f'key {key:#x} as {kn}, counter {ctr} as {cn}'
            rk, rc = readback(b, 'key'), readback(b, 'counter') if ctr is not None else None
            t.check(rk is None or rk == key, f'readback-key:{cfg.name}', lambda: f'{what}: state reports {rk:#x}')
            t.check(rc is None or rc == ctr, f'readback-counter:{cfg.name}', lambda: f'{what}: state reports {rc:#x}')
            st = live(b.state)
            first = first or st
            t.check(st == first, f'spelling-state:{cfg.name}:{kn}:{cn}', f'{what}: state differs from the plain integer spelling')
            t.same(future(b, ops), want, f'spelling:{cfg.name}:{kn}:{cn}', what, sig=('spell', cfg.name, kn, cn, b is reused))
            t.check((canon(k), canon(c)) == frozen, f'spelling-mutates:{cfg.name}', f'{what}: the array passed in was changed')
        t.note(f'{cfg.name}: key {key:#x} in {len(ks)} spellings, counter in {len(cs)}')
    return run


def bads(R, bits, arrays):
    top = 1 << bits
    fr = [0.5, 1.5, -0.5, 3.7, np.float64(2.25), np.float32(1.5), float('nan'), float('inf'), -float('inf'), float(top) * 4,
          fractions.Fraction(3, 2), decimal.Decimal('2.5')]
    out = [(repr(v), v) for v in fr]
    out += [(f'int {v}', v) for v in (-1, -2, -R.getrandbits(bits) - 1, -(1 << 64), -(1 << 63), -top, top, top + 1, 2 * top, top + R.getrandbits(bits),
                                      1 << (bits + R.randrange(300)), np.int64(-1), np.int8(-128))]
    out += [(repr(v), v) for v in ('abc', b'xyz', 1j, object())]
    if arrays:
        n = -(-bits // 64)
        z = [0] * n
        out += [(f'list {x!r}', x) for x in (z + [1], z + [M64], [0.5] + z[1:], [-1] + z[1:], z[:-1] + [-1], [1 << 64] + z[1:], [2.0 ** 64] + z[1:],
                                              [float('nan')] + z[1:], [1.5, M64][:max(n, 1)], ['a'] + z[1:], [[1] * n, [0] * n], [], [None] + z[1:], [1j] + z[1:],
                                              [float(1 << 63), -1.0], [1, -(1 << 63)], [(1 << 64) + 5, 0])]
        out += [('uint64 too long', np.array(z + [1], dtype=np.uint64)), ('2-d', np.ones((n + 1, n + 1), dtype=np.uint64)),
                ('empty', np.array([], dtype=np.uint64)), ('float array', np.array([0.5] * n)), ('neg array', np.array([-1] * n)),
                ('object array', np.array([1 << 64] + z[1:], dtype=object)), ('str array', np.array(['a'] * n)),
                ('complex array', np.array([1j] * n)), ('nan array', np.array([np.nan] * n)), ('int64 array neg', np.array([-5] + z[1:], dtype=np.int64))]
        if bits % 64 == 0:
            pass
        else:
            out.append(('uint64 over', np.array([1 << bits], dtype=np.uint64)))
    return out


def refuse(cfg, i):
    def run(t):
        R = t.rng
        arrays = cfg.cls is not rg.Squares
        which = ['key'] + (['counter'] if cfg.ctr_bits else [])
        for name in which:
            bits = cfg.key_bits if name == 'key' else cfg.ctr_bits
            bad = bads(R, bits, arrays)
            if cfg.cls is rg.Squares and name == 'key':
                bad += [('even', 2), ('zero', 0), ('even', (1 << 64) - 2)]
            for label, v in bad:
                kw = {name: v}
                if name == 'counter':
                    kw['key'] = key_of(cfg, R)
                b = cfg.make(5)
                for via in ('construct', 'seed'):
                    try:
                        b2 = cfg.cls(**kw, **cfg.kw) if via == 'construct' else b.seed(**kw)
                    except Exception as e:
                        t.check(isinstance(e, (ValueError, TypeError, OverflowError)), f'refusal-kind:{cfg.name}:{name}',
                                f'{name}={v!r}: {type(e).__name__}: {e}', stop=False)
                        t.hit('refused', cfg.name, name, label[:30], via)
                        continue
                    st = (b2 if via == 'construct' else b).state
                    t.fail(f'accepted:{cfg.name}:{name}:{label[:24] if "int " not in label else "int"}',
                           f'{via} with {name}={v!r} ({label}) was accepted; state {str(canon(st))[:300]}', stop=False)
        # both at once
        for mk in (lambda: cfg.cls(3, key=1, **cfg.kw), lambda: cfg.make(1).seed(3, key=1)):
            try:
                mk()
            except ValueError:
                t.hit('both', cfg.name)
            else:
                if cfg.cls is not rg.Squares:
                    t.fail(f'accepted:{cfg.name}:seed-and-key', 'seed and key together')
    return run


def sp(R, v):
    """integer-valued scalars"""
    out = [('int', v)]
    for dt in (np.uint64, np.int64, np.uint32, np.int16):
        if v <= np.iinfo(dt).max:
            out.append((dt.__name__, dt(v)))
    return out


CONST = {
    'SFC64.w': (64, lambda v: rg.SFC64(9, w=v), lambda v: m.SFC64(words(np.random.SeedSequence(9), 3), v, 1), None),
    'SFC64.k': (64, lambda v: rg.SFC64(9, k=v), lambda v: m.SFC64(words(np.random.SeedSequence(9), 3), 1, v), 1),
    'LXM.b': (64, lambda v: rg.LXM(9, b=v), lambda v: (lambda w: m.LXM(w[:4], w[4], v))(words(np.random.SeedSequence(9), 5)), 1),
    'Tyche.idx': (32, lambda v: rg.Tyche(9, idx=v), lambda v: (lambda w: m.Tyche(w[0] | w[1] << 32, v, True))(words(np.random.SeedSequence(9), 3, 32)), None),
    'TycheOR.idx': (32, lambda v: rg.Tyche(9, idx=v, original=False), lambda v: (lambda w: m.Tyche(w[0] | w[1] << 32, v, False))(words(np.random.SeedSequence(9), 3, 32)), None),
    'PCG64.inc': (128, lambda v: rg.PCG64(9, inc=v, variant='xsl-rr'), lambda v: (lambda w: m.LCG128(w[0] << 64 | w[1], v, m.PCG_MULT, m.out_xsl_rr, True, m.PCG_CHEAP))(words(np.random.SeedSequence(9), 2)), None),
    'PCG64dxsm.inc': (128, lambda v: rg.PCG64(9, inc=v, variant='dxsm'), lambda v: (lambda w: m.LCG128(w[0] << 64 | w[1], v, m.PCG_CHEAP, m.out_dxsm, False, m.PCG_CHEAP))(words(np.random.SeedSequence(9), 2)), None),
    'PCG64DXSM.inc': (128, lambda v: rg.PCG64DXSM(9, inc=v), lambda v: (lambda w: m.LCG128(w[0] << 64 | w[1], v, m.PCG_CHEAP, m.out_dxsm, False, m.PCG_CHEAP))(words(np.random.SeedSequence(9), 2)), None),
    'LCG128Mix.inc': (128, lambda v: rg.LCG128Mix(9, inc=v), lambda v: (lambda w: m.LCG128(w[0] << 64 | w[1], v, m.PCG_MULT, m.OUTPUTS['xsl-rr'], True, 15750249268501108917))(words(np.random.SeedSequence(9), 2)), None),
    'LCG128Mix.multiplier': (128, lambda v: rg.LCG128Mix(9, multiplier=v), lambda v: (lambda w: m.LCG128(w[0] << 64 | w[1], w[2] << 64 | w[3], v, m.OUTPUTS['xsl-rr'], True, 15750249268501108917))(words(np.random.SeedSequence(9), 4)), 1),
    'LCG128Mix.dxsm_multiplier': (64, lambda v: rg.LCG128Mix(9, output='dxsm', dxsm_multiplier=v), lambda v: (lambda w: m.LCG128(w[0] << 64 | w[1], w[2] << 64 | w[3], m.PCG_MULT, m.OUTPUTS['dxsm'], True, v))(words(np.random.SeedSequence(9), 4)), 1),
    'PCG32.inc': (64, lambda v: rg.PCG32(9, inc=v), lambda v: (lambda w: m.PCG32(w[0], v))(words(np.random.SeedSequence(9), 1)), None),
}


def consts(name, i):
    bits, make, model, odd = CONST[name]

    def run(t):
        R = t.rng
        for _ in range(6):
            v = hostile_int(R, bits)
            if odd:
                v |= 1
            if name == 'LXM.b' and v == 0:
                continue
            ops = ops_string(R, 16)
            want = mixed_model(model(v), ops)
            for n, x in sp(R, v):
                if n != 'int' and name in ('LCG128Mix.multiplier', 'LCG128Mix.dxsm_multiplier') and n != 'uint64':
                    continue
                try:
                    b = make(x)
                except Exception as e:
                    if n == 'int':
                        t.fail(f'const:{name}:{n}', f'{v:#x}: {type(e).__name__}: {e}')
                    continue        # a refused spelling is not a wrong number
                t.same(future(b, ops), want, f'const:{name}:{n}', f'{v:#x} given as {n}', sig=('const', name, n, v.bit_length()))
        top = 1 << bits
        for label, v in [('frac', 3.5), ('frac', np.float64(1.25)), ('neg', -1), ('neg', -R.getrandbits(bits) - 1), ('big', top), ('big', top + 1),
                         ('big', top * 2 + 1), ('big', top + (R.getrandbits(bits) | 1)), ('nan', float('nan')), ('inf', float('inf')), ('neg', np.int64(-3)), ('str', 'abc'), ('list', [1, 2]),
                         ('frac', fractions.Fraction(7, 2)), ('negfrac', -0.5), ('frac', 0.5)]:
            try:
                b = make(v)
            except (ValueError, TypeError, OverflowError):
                t.hit('const-refused', name, label, repr(v)[:20])
                continue
            t.fail(f'accepted:{name}:{label}', f'{name}={v!r} accepted: {str(canon(b.state))[:300]}', stop=False)
        t.note(name)
    return run


def deltas(cfg, i):
    """advance distances in every integer type"""
    def run(t):
        R = t.rng
        from skip import mskip
        for _ in range(4):
            n = hostile_int(R, R.choice([8, 16, 32, 63, 64, cfg.advance]))
            if cfg.cls is not rg.Squares and R.random() < .3:       # beyond the period
                n += R.choice([1, 3, 1 << 20, R.getrandbits(80)]) << R.choice([64, 127, 128, 129, 192, 258])
            if cfg.cls in (rg.PCG32, rg.Squares):
                n &= M64 >> 1
            s = R.randrange(99)
            pre = ops_string(R, R.randrange(5))
            ref = cfg.make(s)
            future(ref, pre)
            advance(ref, cfg, n)
            tail = 'r' * 6 + ops_string(R, 6)[0]
            want = future(ref, 'rrrrrr')
            for nm, d in sp(R, n):
                b = cfg.make(s)
                future(b, pre)
                try:
                    advance(b, cfg, d)
                except (TypeError, OverflowError):
                    continue
                t.same(future(b, 'rrrrrr'), want, f'delta:{cfg.name}:{nm}', f'advance({d!r})', sig=('delta', cfg.name, nm, n.bit_length()))
            for bad in (0.5, 1.5, -2.5, float('nan'), float('inf'), 'x', None, [1], fractions.Fraction(1, 2), 2.0 ** 40 + .5):
                b = cfg.make(s)
                st = canon(b.state)
                try:
                    advance(b, cfg, bad)
                except Exception:
                    t.check(canon(b.state) == st, f'delta-moved:{cfg.name}', f'advance({bad!r}) failed but moved')
                    t.hit('delta-refused', cfg.name, repr(bad))
                    continue
                t.fail(f'delta-accepted:{cfg.name}', f'advance({bad!r}) accepted')
    return run


def counts(cfg, i):
    """numbers of jumps in every integer type; an accepted spelling is that number, fractions and texts are refused where numbers of any size are taken"""
    def run(t):
        R = t.rng
        n = R.choice([1, 2, 3, 5, 7, 127]) if cfg.cls not in (rg.MT19937, rg.SFMT, rg.DSFMT) else 1
        s = R.randrange(99)
        pre = ops_string(R, R.randrange(5))
        which = [w for w in ('jumped', 'jump') if hasattr(cfg.cls, w)]

        def go(w, k):
            b = cfg.make(s)
            future(b, pre)
            return getattr(b, w)(k)
        want = future(go('jumped', n), 'rrrrrr')
        for nm, k in sp(R, n) + [('float', float(n)), ('float64', np.float64(n)), ('decimal', decimal.Decimal(n))]:
            for w in which:
                try:
                    b = go(w, k)
                except (TypeError, OverflowError, NotImplementedError, ValueError):
                    t.hit('count-refused', cfg.name, w, nm)
                    continue
                t.same(future(b, 'rrrrrr'), want, f'count:{cfg.name}:{nm}', f'{w}({k!r})', sig=('count', cfg.name, nm, w, n))
        if cfg.cls in (rg.AESCounter, rg.SPECK128, rg.PCG32):
            for nm, k in sp(R, n):      # counts are Python objects here: NumPy's integers are as good
                go('jumped', k)
        for bad in (1.5, float('nan'), float('inf'), fractions.Fraction(5, 2), None, [1], object(), '1', 'svd', 1 + 1j):
            for w in which:
                b = cfg.make(s)
                st = canon(b.state)
                try:
                    getattr(b, w)(bad)
                except NotImplementedError:
                    continue
                except (TypeError, ValueError, OverflowError):
                    t.check(canon(b.state) == st, f'count-moved:{cfg.name}', f'{w}({bad!r}) failed but moved')
                    t.hit('count-bad', cfg.name, repr(bad)[:12])
                    continue
                # counts taken as C integers follow Python's __int__, as everywhere in Cython
                if cfg.cls in (rg.AESCounter, rg.SPECK128, rg.PCG32, rg.PCG64, rg.LCG128Mix, rg.PCG64DXSM) and w == 'jumped' or not isinstance(bad, (float, fractions.Fraction)):
                    t.fail(f'count-accepted:{cfg.name}', f'{w}({bad!r}) accepted')
    return run


def seeds(cfg, i):
    def run(t):
        R = t.rng
        v = R.choice([hostile_int(R, 32), hostile_int(R, 64), hostile_int(R, 128), hostile_int(R, 200)])
        w = []
        x = v
        while x:
            w.append(x & M32)
            x >>= 32
        w = w or [0]
        forms = sp(R, v) + [('seedseq', np.random.SeedSequence(v)), ('rgseedseq', rg.SeedSequence(v)), ('words', np.array(w, dtype=np.uint32)), ('wordlist', w),
                            ('words64', np.array(w, dtype=np.uint64)), ('tuple', tuple(w))]
        ops = ops_string(R, 20)
        want = None
        for n, s in forms:
            b = cfg.make(s) if R.random() < .5 else cfg.make(1)
            if b.state is not None and R.random() < .5:
                kw = {'idx': cfg.kw['idx']} if 'idx' in cfg.kw else {}
                b.seed(s, **kw)
            else:
                b = cfg.make(s)
            got = (live(b.state), future(b, ops))
            want = want or got
            t.check(got == want, f'seed-spelling:{cfg.name}:{n}', f'seed {v:#x} as {n} differs from the integer', sig=('seed', cfg.name, n, v.bit_length() // 32))
        for label, s in (('neg', -1), ('neg', -R.getrandbits(70) - 1), ('frac', 1.5), ('nan', float('nan')), ('float-list', [1.5, 2.0]), ('neg-list', [-1, 2]),
                         ('neg-array', np.array([-1])), ('str', 'abc'), ('complex', 1j), ('float', 2.0 ** 70 + .0)):
            for via in ('make', 'seed'):
                try:
                    b = cfg.make(s) if via == 'make' else cfg.make(1).seed(s)
                except (ValueError, TypeError):
                    t.hit('seed-refused', cfg.name, label, via)
                    continue
                t.fail(f'seed-accepted:{cfg.name}:{label}', f'seed {s!r} accepted by {via}', stop=False)
    return run


def convert(kind, i):
    """the conversion helpers themselves, all sizes"""
    def run(t):
        from randomgen.tests._shims import object_to_int_shim, int_to_array_shim
        R = t.rng
        if kind == 'to_int':
            for _ in range(60):
                sz = R.choice([32, 64])
                n = R.randrange(1, 9)
                ws = [R.choice([0, 1, (1 << sz) - 1, 1 << (sz - 1), R.getrandbits(sz), ((1 << 53) + 1) % (1 << sz)]) for _ in range(n)]
                v = sum(x << (sz * k) for k, x in enumerate(ws))
                dt = np.uint64 if sz == 64 else np.uint32
                allowed = R.choice([(32, 64), (sz,)])
                for nm, o in (('array', np.array(ws, dtype=dt)), ('list', ws), ('tuple', tuple(ws)), ('strided', np.array(ws + ws, dtype=dt).reshape(2, n).T.ravel(order='F')[:n].copy()),
                              ('int', v), ('np', [dt(x) for x in ws])):
                    got = object_to_int_shim(o, sz * n, 'x', sz, allowed)
                    t.check(got == v and isinstance(got, int), f'object_to_int:{nm}', lambda: f'{o!r} ({sz} bit words) -> {got} not {v}', sig=('toint', sz, n, nm))
                for bits in (sz * n, v.bit_length()):
                    if v >> bits == 0:
                        t.check(object_to_int_shim(v, bits, 'x') == v, 'object_to_int:bits', (v, bits))
                if v:
                    try:
                        object_to_int_shim(np.array(ws, dtype=dt), v.bit_length() - 1, 'x', sz, (32, 64))
                    except ValueError:
                        t.hit('toint-refused', sz, n)
                    else:
                        t.fail('object_to_int:over', f'{v:#x} accepted for {v.bit_length() - 1} bits')
                if len(allowed) == 1:
                    o = np.array([1], dtype=np.uint32 if sz == 64 else np.uint64)
                    try:
                        object_to_int_shim(o, 128, 'x', sz, allowed)
                    except TypeError:
                        pass
                    else:
                        t.fail('object_to_int:size', f'{o.dtype} accepted with allowed sizes {allowed}')
        else:
            for _ in range(60):
                sz = R.choice([32, 64])
                n = R.randrange(1, 9)
                v = hostile_int(R, sz * n)
                a = int_to_array_shim(v, 'x', sz * n, sz)
                t.check(a.dtype == np.dtype(f'u{sz // 8}') and a.ndim == 1 and len(a) == n, 'int_to_array:shape', lambda: f'{v:#x} -> {a!r}')
                t.check(sum(int(x) << (sz * k) for k, x in enumerate(a)) == v, 'int_to_array:value', lambda: f'{v:#x} -> {a!r}', sig=('toarr', sz, n, v.bit_length()))
                a = int_to_array_shim(v, 'x', None, sz)
                t.check(sum(int(x) << (sz * k) for k, x in enumerate(a)) == v, 'int_to_array:free', lambda: f'{v:#x} -> {a!r}')
                for bad in (-1, -v - 1, 1 << (sz * n), (1 << (sz * n)) + v, 0.5, v + .5 if v < 1 << 50 else 1.5):
                    try:
                        r = int_to_array_shim(bad, 'x', sz * n, sz)
                    except (ValueError, TypeError, OverflowError):
                        t.hit('toarr-refused', sz, n, bad < 0)
                        continue
                    t.fail('int_to_array:accepted', f'{bad!r} accepted as {r}')
                ws = [R.getrandbits(sz) for _ in range(n)]
                a = int_to_array_shim(ws, 'x', sz * n, sz)
                t.same([int(x) for x in a], ws, 'int_to_array:list', 'word list')
                for badl in ([-1] * n, [1 << sz] * n, [1] * (n + 1)):
                    try:
                        r = int_to_array_shim(badl, 'x', sz * n, sz)
                    except (ValueError, TypeError, OverflowError):
                        continue
                    t.fail('int_to_array:accepted-list', f'{badl!r} accepted as {r}')
    return run


def cases(ctx):
    for c in KEYED:
        for i in range(ctx.n(10, 400)):
            yield f'numbers/{c.name}/{i}', numbers(c, i)
        for i in range(ctx.n(2, 30)):
            yield f'refuse/{c.name}/{i}', refuse(c, i)
    for n in CONST:
        for i in range(ctx.n(4, 200)):
            yield f'consts/{n}/{i}', consts(n, i)
    for c in CFGS.values():
        if c.advance:
            for i in range(ctx.n(2, 40)):
                yield f'deltas/{c.name}/{i}', deltas(c, i)
        if hasattr(c.cls, 'jumped') and (c.cls not in (rg.MT19937, rg.SFMT, rg.DSFMT)):
            for i in range(ctx.n(2, 20)):
                yield f'counts/{c.name}/{i}', counts(c, i)
        for i in range(ctx.n(3, 60)):
            yield f'seeds/{c.name}/{i}', seeds(c, i)
    for k in ('to_int', 'to_array'):
        for i in range(ctx.n(8, 200)):
            yield f'convert/{k}/{i}', convert(k, i)
