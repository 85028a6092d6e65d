"""P15: multivariate_normal = mean + Z F with F'F = cov, in the documented shape."""
from checks.mv import *

METHODS = ['svd', 'eigh', 'cholesky', 'factor']


def factor_for(e_make, cov, method, n):
    """the linear map the generator applies for this covariance, recovered from its draws (zero mean)"""
    b, tw = e_make()
    K = 3 * n + 6
    X = rg.ExtendedGenerator(b).multivariate_normal(np.zeros(n), cov, K, method=method)
    Z = np.random.Generator(tw).standard_normal((K, n))
    return recover(Z, X)


def spell(R, a):
    k = R.randrange(5)
    if k == 0:
        return a.tolist()
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        return np.repeat(a, 2, axis=-1)[..., ::2]
    if k == 3:
        r = a.copy()
        r.flags.writeable = False
        return r
    return a


def draw(i):
    def run(t):
        R = t.rng
        g = nprng(R)
        n = R.choice([1, 1, 2, 2, 3, 3, 4, 5, 7])
        lm, lc = R.choice(LEADS)
        method = METHODS[i % 4]
        lead = np.broadcast_shapes(lm, lc)
        kinds = [k for k in KINDS if not (method == 'cholesky' and k in SINGULAR)]
        covs = np.empty(lc + (n, n))
        cov_arg = np.empty(lc + (n, n))
        used = set()
        for loc in np.ndindex(*lc):
            k = R.choice(kinds)
            used.add(k)
            if method == 'factor':
                A = g.standard_normal((n, n)) * R.choice([.1, 1, 20])
                if R.random() < .3:
                    A = np.tril(A) if R.random() < .5 else np.triu(A)
                covs[loc], cov_arg[loc] = A @ A.T, A
            else:
                covs[loc] = cov_arg[loc] = sym_psd(g, n, k)[0]
        mean = g.standard_normal(lm + (n,)) * R.choice([0, 1, 1, 100])
        if R.random() < .2:
            mean = np.round(mean).astype(np.int64)
        none_lead = lm == () and lc == ()
        K = 3 * n + 6
        pre = R.choice([None, (), (2,), (3, 1), (K,), (K,), (0,), (1,)]) if not none_lead else R.choice([None, (), (1,), (2, 3), (K,), (K,), (1, K), (0,), (3, 1)])
        if pre is None:
            size = None
        else:
            tail = tuple(o if o == 1 or R.random() < .6 else 1 for o in lead)
            tail = tuple(R.choice([1, 2, 3]) if o == 1 and R.random() < .4 else s for s, o in zip(tail, lead))
            size = pre + tail
            if len(size) == 1 and R.random() < .5:
                size = R.choice([int, np.int64, np.int32])(size[0])
            elif R.random() < .3:
                size = list(size)
        if size is not None and not isinstance(size, (int, np.integer)) and len(size) == 0 and not none_lead:
            size = None
        want = out_lead(size, lead, none_lead)
        cfg, seed, b, tw = pair(R)
        e = rg.ExtendedGenerator(b)
        m_in, c_in = spell(R, mean), spell(R, cov_arg)
        m0, c0 = np.array(m_in, copy=True), np.array(c_in, copy=True)
        cv = R.choice(['raise', 'warn', 'ignore'])
        X, exc, w = caught(lambda: e.multivariate_normal(m_in, c_in, size, check_valid=cv, method=method))
        desc = f'{cfg.name} seed {seed}: multivariate_normal(mean{mean.shape}, cov{covs.shape} {sorted(used)}, size={size}, method={method})'
        if exc is not None:
            t.fail(f'refused:{method}', f'{desc} raised {exc!r}')
        t.check(not w, f'warned:{method}', lambda: f'{desc} warned {w[0].message}')
        t.check(isinstance(X, np.ndarray) and X.dtype == np.float64 and X.shape == want + (n,), 'shape', lambda: f'{desc}: shape {X.shape} expected {want + (n,)}')
        t.check(np.array_equal(np.asarray(m_in), m0) and np.array_equal(np.asarray(c_in), c0), 'inputs-changed', f'{desc} modified its arguments')
        Z = np.random.Generator(tw).standard_normal(want + (n,))
        M = np.broadcast_to(mean, want + (n,))
        D = X - M
        scale = float(np.abs(covs).max(initial=0))
        mx = float(np.abs(mean).max(initial=0))
        err = 1e-11 * (1 + mx) + 1e-9 * np.sqrt(scale)
        full = (1,) * (len(want) - len(lc)) + lc
        identity = True
        for loc in np.ndindex(*lc):
            # every element of the result that uses this covariance
            idx = np.empty(lc, int)
            idx[...] = np.arange(idx.size).reshape(lc)
            sel = np.broadcast_to(idx.reshape(full), want) == idx[loc] if lc else np.ones(want, bool)
            rows, zs = D[sel], Z[sel]
            if not len(rows):
                continue
            t.obs(len(rows))
            dim_tol = 1e-8 * float(np.abs(covs[loc]).max(initial=0)) + 40 * np.sqrt(np.abs(covs[loc]).max(initial=0)) * 1e-11 * (1 + mx) + 1e-18 * (1 + mx) ** 2 + 1e-20
            if len(rows) >= n + 2:
                F, res = recover(zs, rows)
                ok = res <= err and np.abs(F.T @ F - covs[loc]).max(initial=0) <= dim_tol
            else:
                F, res = factor_for(lambda: pair(R)[2:], cov_arg[loc], method, n)
                ok = res <= 1e-9 * np.sqrt(scale) + 1e-12 and np.abs(F.T @ F - covs[loc]).max(initial=0) <= dim_tol and \
                    np.abs(zs @ F - rows).max(initial=0) <= err
            t.evals += 1
            if not ok:
                bad = wrong_map(zs, rows, F, res, covs[loc]) if len(rows) >= n + 2 and mx * mx < 1e4 * scale else None
                if bad:
                    t.fail(f'distribution:{method}', f'{desc}: {bad}')
                identity = False
        if not identity and X.size:
            # the draws are not that function of the stream: judge the distribution itself
            N = 6000 if size is None or len(want) == len(lead) else max(6000, min(100000, 1000000 // (n * n * max(1, int(np.prod(want))))))
            e2 = rg.ExtendedGenerator(CFGS['PCG64DXSM'].make(R.getrandbits(60)))
            if size is None or len(want) == len(lead):
                big = np.stack([e2.multivariate_normal(m_in, c_in, size, method=method) for _ in range(N)])
            else:
                base = tuple(size) if not isinstance(size, (int, np.integer)) else (int(size),)
                big = e2.multivariate_normal(m_in, c_in, (N,) + base, method=method)
            for loc in np.ndindex(*want):
                c = np.broadcast_to(covs, want + (n, n))[loc]
                bad = moments_ok(big[(slice(None),) + loc], M[loc], c)
                if bad:
                    t.fail(f'distribution:{method}', f'{desc}: element {loc}: {bad}')
            # independence between the elements of one call
            flat = (big - M).reshape(N, -1)
            sd = np.sqrt(np.broadcast_to(np.diagonal(covs, axis1=-2, axis2=-1), want + (n,)).reshape(-1))
            C = flat.T @ flat / N
            own = np.arange(flat.shape[1]) // n
            bad = (own[:, None] != own[None, :]) & (np.abs(C) > 8 * np.outer(sd, sd) / np.sqrt(N) + 1e-9 * (1 + scale))
            t.check(not bad.any(), f'dependent:{method}', f'{desc}: different draws of one call are correlated')
        if none_lead or identity:
            pass
        # reproducible
        b2 = cfg.make(seed)
        b3 = cfg.make(seed)
        A = rg.ExtendedGenerator(b2).multivariate_normal(m_in, c_in, size, check_valid=cv, method=method)
        B = rg.ExtendedGenerator(b3).multivariate_normal(m_in, c_in, size, check_valid=cv, method=method)
        t.same(A, B, 'reproducible', desc)
        t.hit('draw', method, n, lm, lc, None if size is None else len(want), tuple(sorted(used)), cv)
        t.note(f'{desc}: X = mean + Z F, F\'F = cov')
    return run


def scales(i):
    """very small, very large and very different variances: judged relative to each entry's own size"""
    def run(t):
        R = t.rng
        g = nprng(R)
        n = R.choice([1, 2, 3, 5])
        method = METHODS[i % 4]
        kind = ['wide-diag', 'tiny', 'huge', 'block'][(i // 4) % 4]
        if kind == 'wide-diag':
            c = np.diag(10.0 ** g.uniform(-16, 6, n))
        elif kind == 'block':             # two unrelated units of measurement
            k = R.randint(1, n)
            c = np.zeros((n, n))
            c[:k, :k] = sym_psd(g, k, 'full')[0]
            if k < n:
                c[k:, k:] = sym_psd(g, n - k, 'full')[0] * 10.0 ** g.uniform(-14, -6)
        else:
            c = sym_psd(g, n, R.choice(['full', 'equi', 'tri', 'diag']))[0] * (10.0 ** g.uniform(-16, -6) if kind == 'tiny' else 10.0 ** g.uniform(4, 10))
        arg = np.linalg.cholesky(c) if method == 'factor' else c
        cfg, seed, b, tw = pair(R)
        K = 3 * n + 6
        X, exc, w = caught(lambda: rg.ExtendedGenerator(b).multivariate_normal(np.zeros(n), arg, K, check_valid='raise' if kind != 'huge' else 'ignore', method=method))
        desc = f'{cfg.name} seed {seed}: {kind} covariance, n={n}, method={method}, diagonal {np.diag(c)[:3]}'
        t.check(exc is None, f'scales-refused:{method}', f'{desc} raised {exc!r}')
        F, res = recover(np.random.Generator(tw).standard_normal((K, n)), X)
        d = np.sqrt(np.diag(c))
        lim = 1e-5 * np.outer(d, d)
        ok = res <= 1e-9 * d.max() and (np.abs(F.T @ F - c) <= lim).all()
        t.evals += 1
        t.obs(K)
        if not ok:
            e2 = rg.ExtendedGenerator(CFGS['PCG64DXSM'].make(R.getrandbits(60)))
            big = e2.multivariate_normal(np.zeros(n), arg, 6000, check_valid='ignore', method=method) / d
            bad = moments_ok(big, np.zeros(n), c / np.outer(d, d))
            if bad:
                t.fail(f'scales:{method}', f'{desc}: in units of the standard deviation: {bad}')
        t.hit('scales', method, kind, n)
    return run


def stack(i):
    """many covariances in one call, neighbours alike or minute: every draw follows its own covariance"""
    def run(t):
        R = t.rng
        g = nprng(R)
        n = R.choice([1, 2, 3, 4])
        lc = R.choice([(2,), (3,), (6,), (2, 3), (1, 4)])
        method = METHODS[i % 4]
        base = sym_psd(g, n, R.choice(['full', 'tri', 'diag', 'full']))[0] * 10.0 ** R.choice([0, 0, -3, -6, -9, -12, -16])
        covs = np.empty(lc + (n, n))
        prev = base
        for loc in np.ndindex(*lc):
            k = R.randrange(5)
            if k == 0:
                c = prev.copy()
            elif k == 1:
                c = prev * (1 + 10.0 ** R.uniform(-4, 0))
            elif k == 2:                   # one unit of measurement changes
                d = np.ones(n)
                d[R.randrange(n)] += 10.0 ** R.uniform(-4, 0)
                c = prev * np.outer(d, d)
            elif k == 3:
                c = sym_psd(g, n, 'full')[0] * np.abs(base).max()
            else:
                c = base * 10.0 ** R.uniform(-3, 3)
            covs[loc] = prev = c
        arg = np.linalg.cholesky(covs) if method == 'factor' else covs
        cfg, seed, b, tw = pair(R)
        K = 3 * n + 6
        X, exc, w = caught(lambda: rg.ExtendedGenerator(b).multivariate_normal(np.zeros(n), arg, (K,) + lc, method=method))
        desc = f'{cfg.name} seed {seed}: {lc} covariances of similar size {np.abs(base).max():.3g}, n={n}, method={method}'
        t.check(exc is None, f'stack-refused:{method}', f'{desc} raised {exc!r}')
        Z = np.random.Generator(tw).standard_normal((K,) + lc + (n,))
        bad = None
        for loc in np.ndindex(*lc):
            sel = (slice(None),) + loc
            c = covs[loc]
            d = np.sqrt(np.diag(c))
            F, res = recover(Z[sel], X[sel])
            t.evals += 1
            t.obs(K)
            if not (res <= 1e-9 * d.max() and (np.abs(F.T @ F - c) <= 1e-5 * np.outer(d, d)).all()):
                bad = bad or loc
        if bad is not None:                # not that function of the stream: judge every element's distribution
            N = 40000
            e2 = rg.ExtendedGenerator(CFGS['PCG64DXSM'].make(R.getrandbits(60)))
            big = e2.multivariate_normal(np.zeros(n), arg, (N,) + lc, method=method)
            for loc in np.ndindex(*lc):
                c = covs[loc]
                d = np.sqrt(np.diag(c))
                F, res = recover(Z[(slice(None),) + loc], X[(slice(None),) + loc])
                if res <= 1e-9 * d.max():
                    t.check((np.abs(F.T @ F - c) <= 1e-5 * np.outer(d, d)).all(), f'stack:{method}',
                            lambda: f'{desc}: element {loc} is Z F with F\'F = {(F.T @ F).ravel()[:4]}, its covariance is {c.ravel()[:4]}')
                else:
                    m = moments_ok(big[(slice(None),) + loc] / d, np.zeros(n), c / np.outer(d, d))
                    t.check(not m, f'stack:{method}', lambda: f'{desc}: element {loc}, in units of the standard deviation: {m}')
        t.hit('stack', method, lc, n, int(np.log10(np.abs(base).max())))
    return run


def invalid(i):
    def run(t):
        R = t.rng
        g = nprng(R)
        n = R.choice([2, 3, 4])
        method = R.choice(['svd', 'eigh', 'cholesky'])
        cv = ['raise', 'warn', 'ignore'][i % 3]
        lc = R.choice([(), (3,), (2, 2)])
        covs = np.empty(lc + (n, n))
        for loc in np.ndindex(*lc):
            covs[loc] = sym_psd(g, n, 'full')[0]
        loc = tuple(R.randrange(s) for s in lc)
        q = np.linalg.qr(g.standard_normal((n, n)))[0]
        ev = g.uniform(.5, 2, n)
        ev[R.randrange(n)] = -R.choice([.3, 1., 5.])
        covs[loc] = (q * ev) @ q.T
        covs[loc] = (covs[loc] + covs[loc].T) / 2
        size = R.choice([None, (2,) + lc])
        cfg, seed, b, tw = pair(R)
        e = rg.ExtendedGenerator(b)
        X, exc, w = caught(lambda: e.multivariate_normal(np.zeros(n), covs, size, check_valid=cv, method=method))
        desc = f'{cfg.name} seed {seed}: indefinite covariance at {loc} of {covs.shape}, method={method}, check_valid={cv}'
        if method == 'cholesky':
            t.check(isinstance(exc, np.linalg.LinAlgError) or (exc is None and cv != 'raise'), f'invalid:{method}:{cv}', f'{desc}: {exc!r}')
        elif cv == 'raise':
            t.check(isinstance(exc, ValueError), f'invalid:{method}:{cv}', f'{desc} not refused ({exc!r})')
        else:
            t.check(exc is None, f'invalid:{method}:{cv}', f'{desc} raised {exc!r}')
            t.check(bool([x for x in w if issubclass(x.category, RuntimeWarning)]) == (cv == 'warn'), f'invalid:{method}:{cv}',
                    f'{desc}: {len(w)} warnings')
            t.check(X.shape == ((2,) if size else ()) + lc + (n,), f'invalid-shape:{method}', f'{desc}: {X.shape}')
        if exc is not None:
            untouched(t, b, tw, f'refused-moved:{method}', f'{desc}: stream after the refusal')
        t.hit('invalid', method, cv, lc, loc)
    return run


BADSHAPES = [('mean-0d', lambda e: e.multivariate_normal(1.0, np.eye(1))), ('cov-1d', lambda e: e.multivariate_normal([0, 0], [1, 1])),
             ('cov-0d', lambda e: e.multivariate_normal([0], 2.0)), ('nonsquare', lambda e: e.multivariate_normal([0, 0], np.ones((2, 3)))),
             ('mismatch', lambda e: e.multivariate_normal([0, 0, 0], np.eye(2))), ('mismatch', lambda e: e.multivariate_normal([0], np.eye(2))),
             ('leading', lambda e: e.multivariate_normal(np.zeros((2, 2)), np.stack([np.eye(2)] * 3))),
             ('leading', lambda e: e.multivariate_normal(np.zeros((4, 2, 2)), np.stack([np.eye(2)] * 4))),
             ('size', lambda e: e.multivariate_normal(np.zeros((3, 2)), np.eye(2), (2,))),
             ('size', lambda e: e.multivariate_normal(np.zeros((3, 2)), np.eye(2), 4)),
             ('size', lambda e: e.multivariate_normal(np.zeros((3, 2)), np.eye(2), ())),
             ('size', lambda e: e.multivariate_normal(np.zeros((2, 3, 2)), np.eye(2), (3,))),
             ('size', lambda e: e.multivariate_normal(np.zeros((2, 3, 2)), np.eye(2), (5, 3, 2))),
             ('size', lambda e: e.multivariate_normal(np.zeros(2), np.stack([np.eye(2)] * 3), (3, 2))),
             ('size-neg', lambda e: e.multivariate_normal(np.zeros(2), np.eye(2), -1)),
             ('size-neg', lambda e: e.multivariate_normal(np.zeros(2), np.eye(2), (2, -3))),
             ('check_valid', lambda e: e.multivariate_normal(np.zeros(2), np.eye(2), check_valid='maybe')),
             ('check_valid', lambda e: e.multivariate_normal(np.zeros(2), np.eye(2), check_valid=True))]


def badshape(i):
    def run(t):
        R = t.rng
        name, f = BADSHAPES[i]
        cfg, seed, b, tw = pair(R)
        _, exc, _ = caught(lambda: f(rg.ExtendedGenerator(b)))
        t.check(isinstance(exc, (ValueError, TypeError)), f'accepted:{name}:{i}', f'invalid call #{i} ({name}): {exc!r}')
        untouched(t, b, tw, f'refused-moved:{name}:{i}', f'invalid call #{i}')
        t.hit('bad', i)
    return run


def cases(ctx):
    for i in range(ctx.n(900, 12000)):
        yield f'draw/{METHODS[i % 4]}/{i}', draw(i)
    for i in range(ctx.n(96, 1600)):
        yield f'scales/{i}', scales(i)
    for i in range(ctx.n(160, 2400)):
        yield f'stack/{i}', stack(i)
    for i in range(ctx.n(90, 900)):
        yield f'invalid/{i}', invalid(i)
    for i in range(len(BADSHAPES)):
        yield f'bad/{i}', badshape(i)
