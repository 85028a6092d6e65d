"""P16: complex_normal = loc + a linear image of two normals with the requested covariance and pseudo-covariance."""
from checks.mv import *

SH = [((), (), ()), ((), (), ()), ((3,), (), ()), ((), (3,), ()), ((), (), (3,)), ((3,), (3,), (3,)), ((2, 3), (3,), (2, 1)), ((2, 1), (1, 3), ()),
      ((), (2, 1), (3,)), ((3, 1), (2,), (3, 2)), ((1,), (4,), (1,)), ((), (2, 2), (2, 2)), ((1, 1), (), ()), ((), (1,), (3, 1)), ((2,), (1, 1), (2, 1))]


def valid(R, g, kind=None):
    """-> var_re, var_im, cov of (re, im)"""
    k = kind or R.choice(['gen', 'gen', 'gen', 'circ', 'real', 'imag', 'one', 'zero', 'high', 'big', 'small', 'anti'])
    a, b, rho = g.uniform(.1, 4), g.uniform(.1, 4), g.uniform(-.95, .95)
    if k == 'circ':
        b, rho = a, 0.0
    elif k == 'real':
        b, rho = 0.0, 0.0
    elif k == 'imag':
        a, rho = 0.0, 0.0
    elif k == 'one':                   # exact boundary, exactly representable
        a, b, rho = R.choice([(1., 1., 1.), (4., 1., 1.), (1., 4., -1.), (.25, 1., 1.), (16., 16., -1.)])
    elif k == 'zero':
        a = b = rho = 0.0
    elif k == 'high':
        rho = R.choice([-1, 1]) * g.uniform(.99, .9999)
    elif k == 'big':
        a, b = a * 1e6, b * 1e4
    elif k == 'small':
        a, b = a * 1e-6, b * 1e-5
    elif k == 'anti':
        b, rho = a, R.choice([-.9, .9])
    return a, b, rho * np.sqrt(a * b), k


def params_of(gam, rel):
    vr, vi = .5 * (gam + rel).real, .5 * (gam - rel).real
    return vr, vi, .5 * rel.imag


def compatible(R, g, sg, sr):
    """gamma and relation arrays of these shapes whose broadcast pairs are all valid"""
    for _ in range(200):
        sc = R.choice([1., 1., 1., 1e4, 1e-4])
        if sg == sr == ():
            a, b, c, k = valid(R, g)
            return np.array(complex(a + b)), np.array(complex(a - b, 2 * c)), k
        if sg == sr:
            gam, rel = np.empty(sg, complex), np.empty(sr, complex)
            ks = set()
            for loc in np.ndindex(*sg):
                a, b, c, k = valid(R, g)
                ks.add(k)
                gam[loc], rel[loc] = a + b, complex(a - b, 2 * c)
            return gam, rel, tuple(sorted(ks))
        gam = g.uniform(1, 3, sg).astype(complex) * sc
        mag = g.uniform(0, .95, sr) * sc
        ph = g.uniform(0, 2 * np.pi, sr)
        rel = mag * np.exp(1j * ph)
        if R.random() < .2:
            rel = rel.real.astype(complex)
        if R.random() < .1:
            rel = rel * 0
        return gam, rel, 'sep'


def spell(R, a, real_ok=True):
    a = np.asarray(a)
    k = R.randrange(7)
    if a.ndim == 0:
        v = complex(a)
        if v.imag == 0 and real_ok and k < 3:
            return R.choice([v.real, np.float64(v.real), np.array(v.real)])
        return R.choice([v, np.complex128(v), np.array(v)])
    if k == 0:
        return a.tolist()
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        return np.repeat(a, 2, axis=-1)[..., ::2]
    if k == 3 and real_ok and not a.imag.any():
        return a.real.copy()
    if k == 4:
        r = a.copy()
        r.flags.writeable = False
        return r
    if k == 5:
        return a.astype(a.dtype.newbyteorder())
    return a


def draw(i):
    def run(t):
        R = t.rng
        g = nprng(R)
        sl, sg, sr = R.choice(SH)
        loc = (g.standard_normal(sl) + 1j * g.standard_normal(sl)) * R.choice([0, 1, 1, 30])
        loc = np.asarray(loc)
        gam, rel, kind = compatible(R, g, sg, sr)
        lead = np.broadcast_shapes(sl, sg, sr)
        K = 9
        size = R.choice([None, None, lead, (K,) + lead, (K,) + lead, (2, 1) + lead, (0,) + lead])
        if lead == () and size is not None and len(size) == 1 and R.random() < .5:
            size = R.choice([int, np.int64])(size[0])
        elif size is not None and not isinstance(size, int) and R.random() < .2:
            size = list(size)
        # a size that broadcasts ones of the parameters upward
        if size is None and 1 in lead and R.random() < .6:
            size = tuple(R.choice([1, 2, 3]) if x == 1 else x for x in lead)
        want = lead if size is None else (int(size),) if isinstance(size, (int, np.integer)) else tuple(size)
        cfg, seed, b, tw = pair(R)
        e = rg.ExtendedGenerator(b)
        args = [spell(R, loc), spell(R, gam), spell(R, rel)]
        copies = [np.array(a, copy=True) for a in args]
        scalar_call = size is None and lead == ()
        desc = f'{cfg.name} seed {seed}: complex_normal(loc{sl}, gamma{sg}, relation{sr}, size={size}) [{kind}]'
        kw = {}
        if size is not None:
            kw['size'] = size
        rows = []
        nrep = K if scalar_call else 1
        for _ in range(nrep):
            X, exc, w = caught(lambda: e.complex_normal(*args, **kw))
            if exc is not None:
                t.fail('refused', f'{desc} raised {exc!r}')
            t.check(not w, 'warned', lambda: f'{desc} warned {w[0].message}')
            if scalar_call:
                t.check(isinstance(X, complex) or (isinstance(X, np.ndarray) and X.shape == () and X.dtype == np.complex128), 'type', f'{desc}: {type(X)}')
            else:
                t.check(isinstance(X, np.ndarray) and X.dtype == np.complex128 and X.shape == want, 'shape',
                        lambda: f'{desc}: {getattr(X, "shape", None)} expected {want}')
            rows.append(np.asarray(X))
        t.check(all(np.array_equal(np.asarray(a), c) for a, c in zip(args, copies)), 'inputs-changed', f'{desc} modified its arguments')
        X = np.stack(rows)
        full = (nrep,) + want
        L, G, C = (np.broadcast_to(a, full) for a in (loc, gam, rel))
        vr, vi, cv = params_of(G, C)
        Z = np.random.Generator(tw).standard_normal(full + (2,))
        D = np.stack([(X - L).real, (X - L).imag], -1)
        # distinct parameter elements -> recover the 2x2 map of each
        pid = np.broadcast_to(np.arange(max(1, int(np.prod(lead)))).reshape(lead), full)
        t.obs(X.size)
        ok = True
        sc = float(np.abs(gam).max(initial=0))
        lx = float(np.abs(loc).max(initial=0))
        for q in range(int(np.prod(lead)) if lead else 1):
            sel = pid == q
            zz, dd = Z[sel], D[sel]
            if not len(zz):
                continue
            S = np.array([[vr[sel][0], cv[sel][0]], [cv[sel][0], vi[sel][0]]])
            mx = float(np.abs(S).max())
            tol = 1e-9 * mx + 20 * np.sqrt(mx) * 1e-12 * (1 + lx) + 1e-22 * (1 + lx) ** 2
            err = 1e-11 * (1 + lx) + 1e-10 * np.sqrt(mx)
            if len(zz) >= 4:
                F, res = recover(zz, dd)
                good = res <= err and np.abs(F.T @ F - S).max() <= tol
            else:
                # the map the generator applies to the same pair given as scalars
                _, _, b2, t2 = pair(R)
                x2 = rg.ExtendedGenerator(b2).complex_normal(0, complex(np.broadcast_to(gam, lead).flat[q] if lead else gam),
                                                             complex(np.broadcast_to(rel, lead).flat[q] if lead else rel), size=8)
                F, res = recover(np.random.Generator(t2).standard_normal((8, 2)), np.stack([x2.real, x2.imag], -1))
                good = res <= 1e-10 * np.sqrt(mx) + 1e-14 and np.abs(F.T @ F - S).max() <= tol and np.abs(zz @ F - dd).max() <= err
            t.evals += 1
            if not good:
                zr, xr = (zz, dd) if len(zz) >= 4 else (np.eye(2), F)
                bad = wrong_map(zr, xr, F, res, S) if len(zz) < 4 or lx * lx < 1e4 * mx else None
                if bad:
                    t.fail('distribution', f'{desc}: element {q}: {bad}')
            ok &= bool(good)
        if not ok and X.size:
            N = 8000 if scalar_call or size is None or len(want) == len(lead) else max(8000, min(100000, 600000 // max(1, int(np.prod(want)))))
            e2 = rg.ExtendedGenerator(CFGS['PCG64DXSM'].make(R.getrandbits(60)))
            if scalar_call or size is None or len(want) == len(lead):
                big = np.stack([np.asarray(e2.complex_normal(*args, **kw)) for _ in range(N)])
            else:
                big = e2.complex_normal(*args, size=(N,) + want)
            for q in np.ndindex(*want):
                S = np.array([[vr[(0,) + q], cv[(0,) + q]], [cv[(0,) + q], vi[(0,) + q]]])
                x = big[(slice(None),) + q]
                m0 = np.array([L[(0,) + q].real, L[(0,) + q].imag])
                bad = moments_ok(np.stack([x.real, x.imag], -1), m0, S)
                if bad:
                    t.fail('distribution', f'{desc}: element {q}: (re, im) {bad}')
        # scalar and array parameters give the same draws
        if sl == sg == sr == () and not ok is None:
            b4, b5 = cfg.make(seed), cfg.make(seed)
            n = R.randint(1, 6)
            s = [rg.ExtendedGenerator(b4).complex_normal(complex(loc), complex(gam), complex(rel)) for _ in range(n)]
            how = R.randrange(4)
            e5 = rg.ExtendedGenerator(b5)
            if how == 0:
                a = e5.complex_normal(np.full(n, complex(loc)), np.full(n, complex(gam)), np.full(n, complex(rel)))
            elif how == 1:
                a = e5.complex_normal(complex(loc), complex(gam), complex(rel), size=(n, 1)).ravel()
            elif how == 2:
                a = e5.complex_normal(np.full((1, n), complex(loc)), complex(gam), [complex(rel)]).ravel()
            else:
                a = e5.complex_normal(complex(loc), [complex(gam)], complex(rel), size=n)
            lim = 1e-12 * (1 + lx + np.sqrt(sc))
            t.check(a.shape == (n,) and np.abs(a - np.array(s)).max() <= lim, f'scalar-array:{how}',
                    lambda: f'{desc}: scalar draws {s[:2]} and array draws {a[:2]} differ')
            untouched(t, b4, b5, f'scalar-array-position:{how}', f'{desc}: stream after scalar and array draws')
        t.hit('draw', sl, sg, sr, None if size is None else want, kind)
        t.note(f'{desc}: recovered 2x2 maps match')
    return run


def units(i):
    """a change of units by a power of two scales every draw and the validity of no pair"""
    def run(t):
        R = t.rng
        g = nprng(R)
        sg, sr = R.choice([((), ()), ((), ()), ((3,), (3,)), ((2, 1), (3,)), ((), (2,)), ((4,), ())])
        gam, rel, kind = compatible(R, g, sg, sr)
        lead = np.broadcast_shapes(sg, sr)
        bad = i % 6 == 5
        if bad:
            gam, rel = np.array(np.broadcast_to(gam, lead)), np.array(np.broadcast_to(rel, lead))
            q = tuple(R.randrange(x) for x in lead)
            v = g.uniform(.5, 3)
            gam[q], rel[q] = R.choice([(v, 1j * v * 1.02), (v, v * 1.1), (v, -v * 1.1), (-v, 0), (0, .5j), (v, v * (.6 + .82j))])
        k = R.choice([-1, 1]) * R.choice([R.randint(1, 480), R.randint(240, 300), R.choice([268, 269, 255, 256, 257, 400, 480])])
        cfg, seed, b, tw = pair(R)
        size = R.choice([None, lead, (5,) + lead])
        desc = f'{cfg.name} seed {seed}: complex_normal(0, {spell_desc(gam)}, {spell_desc(rel)}, size={size}) with both parameters times 2**{2 * k} [{kind}]'
        sc = 2.0 ** (2 * k) if abs(2 * k) < 1000 else np.ldexp(1.0, 2 * k)
        X, exc, w = caught(lambda: rg.ExtendedGenerator(b).complex_normal(0, gam * sc if gam.ndim else complex(gam) * sc,
                                                                         rel * sc if rel.ndim else complex(rel) * sc, size))
        if bad:
            t.check(isinstance(exc, ValueError), f'units-accepted:{"array" if lead else "scalar"}', f'{desc}: invalid pair gave {exc!r}')
            untouched(t, b, tw, 'units-refused-moved', desc)
            t.hit('units-bad', lead, k)
            return
        t.check(exc is None, 'units-refused', f'{desc} raised {exc!r}')
        t.check(not w, 'units-warned', lambda: f'{desc} warned {w[0].message}')
        Y = rg.ExtendedGenerator(tw).complex_normal(0, gam if gam.ndim else complex(gam), rel if rel.ndim else complex(rel), size)
        X, Y = np.asarray(X), np.asarray(Y)
        t.check(X.shape == Y.shape, 'units-shape', f'{desc}: {X.shape} and {Y.shape}')
        sd = np.sqrt(np.broadcast_to(np.abs(gam.real), X.shape))
        xr, xi = np.ldexp(X.real, -k), np.ldexp(X.imag, -k)
        ok = bool(np.all(np.abs(xr - Y.real) <= 1e-10 * sd) and np.all(np.abs(xi - Y.imag) <= 1e-10 * sd))
        t.obs(X.size)
        t.check(ok, 'units', lambda: f'{desc}: draws in these units {(xr + 1j * xi).ravel()[:2]}, in the others {Y.ravel()[:2]}')
        t.hit('units', sg, sr, k, kind)
    return run


def spell_desc(a):
    return repr(np.asarray(a).tolist())[:80]


def invalid(i):
    def run(t):
        R = t.rng
        g = nprng(R)
        shape = R.choice([(), (4,), (2, 3)])
        gam, rel = np.empty(shape, complex), np.empty(shape, complex)
        for q in np.ndindex(*shape):
            a, b, c, _ = valid(R, g)
            gam[q], rel[q] = a + b, complex(a - b, 2 * c)
        q = tuple(R.randrange(s) for s in shape)
        kind = ['negative', 're+', 're-', 'imag-gamma', 'rho', 'rho-neg', 'degenerate', 'zero-gamma'][i % 8]
        v = g.uniform(.5, 3)
        gam[q], rel[q] = {'negative': (-v, 0), 're+': (v, -v * 1.1), 're-': (v, v * 1.1), 'imag-gamma': (complex(v, R.choice([-1, 1]) * .3), 0),
                          'rho': (v, 1j * v * 1.01), 'rho-neg': (v, complex(v * .6, -v * .81)),
                          'degenerate': (v, complex(R.choice([-1, 1]) * v, R.choice([-.2, .2]))), 'zero-gamma': (0, R.choice([.5, -.5, .5j]))}[kind]
        how = R.randrange(4)
        ga, re = gam, rel
        if shape and how == 1:            # the array is invalid through broadcasting only
            re = np.full((), rel[q])
            gam2 = (np.abs(gam) + 2 * abs(rel[q]) + 1).astype(complex)
            gam2[q] = gam[q]
            ga = gam2
        size = R.choice([None, shape, (2,) + shape])
        cfg, seed, b, tw = pair(R)
        e = rg.ExtendedGenerator(b)
        loc = R.choice([0, 1 + 2j, np.zeros(shape)])
        args = [loc, spell(R, ga), spell(R, re)]
        X, exc, _ = caught(lambda: e.complex_normal(*args) if size is None else e.complex_normal(*args, size=size))
        desc = f'{cfg.name} seed {seed}: complex_normal with {kind} pair {gam[q]}, {rel[q]} at {q} of {shape}, size={size}'
        t.check(isinstance(exc, ValueError), f'accepted:{kind}:{"array" if shape else "scalar"}', f'{desc}: {exc!r}')
        untouched(t, b, tw, f'refused-moved:{kind}', desc)
        t.hit('invalid', kind, shape, q, how, size)
    return run


BAD = [lambda e: e.complex_normal(0, [1, 2], [0, 0, 0]), lambda e: e.complex_normal([0, 0], [1, 1, 1]), lambda e: e.complex_normal(np.zeros((2, 2)), 1, 0, 2),
       lambda e: e.complex_normal(np.zeros(3), 1, 0, 4), lambda e: e.complex_normal(0, np.ones((2, 3)), 0, (3, 2)), lambda e: e.complex_normal(0, np.ones(3), 0, 1),
       lambda e: e.complex_normal(0, np.ones(3), 0, ()), lambda e: e.complex_normal(0, 1, 0, -1), lambda e: e.complex_normal(0, [1, 1], 0, (-1, 2)),
       lambda e: e.complex_normal('a', 1, 0), lambda e: e.complex_normal(0, 'x', 0), lambda e: e.complex_normal(0, 1, [[1], [1, 2]]),
       lambda e: e.complex_normal(0, 1, np.zeros((3, 1)), (1, 3)), lambda e: e.complex_normal(np.zeros(3), np.ones(3), np.zeros(3), (3, 1))]


def badcall(i):
    def run(t):
        cfg, seed, b, tw = pair(t.rng)
        _, exc, _ = caught(lambda: BAD[i](rg.ExtendedGenerator(b)))
        t.check(isinstance(exc, (ValueError, TypeError)), f'accepted:call:{i}', f'invalid call #{i}: {exc!r}')
        untouched(t, b, tw, f'refused-moved:call:{i}', f'invalid call #{i}')
        t.hit('bad', i)
    return run


def cases(ctx):
    for i in range(ctx.n(1500, 20000)):
        yield f'draw/{i}', draw(i)
    for i in range(ctx.n(160, 2000)):
        yield f'invalid/{i}', invalid(i)
    for i in range(ctx.n(100, 2000)):
        yield f'units/{i}', units(i)
    for i in range(len(BAD)):
        yield f'bad/{i}', badcall(i)
