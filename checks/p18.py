"""P18: wishart / standard_wishart draws are Wishart matrices with the requested parameters."""
from checks.mv import *

METHODS = ['svd', 'eigh', 'cholesky', 'factor']
DFK = ['small', 'eq-1', 'eq', 'eq+1', 'large', 'one', 'huge']


def df_of(R, n, kind):
    return {'small': R.randint(1, max(1, n - 1)), 'eq-1': max(1, n - 1), 'eq': n, 'eq+1': n + 1, 'large': R.randint(n, n + 25), 'one': 1,
            'huge': R.choice([1000, 123457, 10 ** 9, 2 ** 31 + 5, 2 ** 32 + 50, 10 ** 12])}[kind]


def bartlett(g, df, n, num):
    """the same distribution, read off the normals/chi-squares of the twin stream"""
    out = np.empty((num, n, n))
    if df < n:
        z = g.standard_normal((num, df, n))
        return z.transpose(0, 2, 1) @ z
    for k in range(num):
        A = np.zeros((n, n))
        for i in range(n):
            A[i, i] = np.sqrt(g.chisquare(df - i))
            for j in range(i + 1, n):
                A[i, j] = g.standard_normal()
        out[k] = A.T @ A
    return out


def well_formed(t, W, df, n, key, desc, rank=None):
    """symmetric, positive semi-definite, rank at most min(df, rank)"""
    flat = W.reshape(-1, n, n)
    if not len(flat) or not n:
        return
    top = np.abs(flat).max(axis=(1, 2)) + 1e-300
    t.obs(len(flat))
    t.check(bool((np.abs(flat - flat.transpose(0, 2, 1)).max(axis=(1, 2)) <= 1e-10 * top).all()), f'symmetric:{key}', f'{desc}: not symmetric')
    ev = np.linalg.eigvalsh((flat + flat.transpose(0, 2, 1)) / 2)
    t.check(bool((ev[:, 0] >= -1e-9 * top).all()), f'psd:{key}', f'{desc}: eigenvalue {ev[:, 0].min()}')
    r = min(df, n if rank is None else rank)
    if r < n:
        t.check(bool((ev[:, n - r - 1] <= 1e-9 * top).all()), f'rank:{key}', f'{desc}: rank above {r}: {ev[:, n - r - 1].max()}')


def moments(W, df, scale, k=8.0):
    """W: (N,n,n) draws; complaint or None"""
    N = len(W)
    d = np.diag(scale)
    mean, var = df * scale, df * (scale ** 2 + np.outer(d, d))
    m = W.mean(0)
    tiny = 1e-8 * df * (np.abs(scale).max() + 1e-300)
    bad = np.abs(m - mean) > k * np.sqrt(var / N) + tiny
    if bad.any():
        i, j = map(int, np.argwhere(bad)[0])
        return f'entry ({i},{j}): sample mean {m[i, j]:.5g}, expected {mean[i, j]:.5g} ({abs(m[i, j] - mean[i, j]) / np.sqrt(var[i, j] / N + 1e-300):.1f} sigma, N={N})'
    sq = (W - mean) ** 2
    v = sq.mean(0)
    se = sq.std(0) / np.sqrt(N)
    bad = np.abs(v - var) > k * se + 1e-7 * var.max() + tiny ** 2
    if bad.any():
        i, j = map(int, np.argwhere(bad)[0])
        return f'entry ({i},{j}): sample variance {v[i, j]:.5g}, expected {var[i, j]:.5g} ({abs(v[i, j] - var[i, j]) / (se[i, j] + 1e-300):.1f} sigma, N={N})'
    return None


def standard(i):
    def run(t):
        R = t.rng
        n = R.choice([1, 2, 2, 3, 3, 4, 5, 8])
        kind = DFK[i % len(DFK)]
        df = df_of(R, n, kind)
        size = R.choice([None, (), 1, 2, 5, np.int64(3), (3,), (2, 3), [2, 1], (1, 1), (0,), 0, (2, 0)])
        sh = () if size is None or size == () else (int(size),) if isinstance(size, (int, np.integer)) else tuple(size)
        num = int(np.prod(sh))
        resc = R.choice([True, False, None])
        cfg, seed, b, tw = pair(R)
        e = rg.ExtendedGenerator(b)
        desc = f'{cfg.name} seed {seed}: standard_wishart({df}, {n}, size={size}, rescale={resc})'
        W = e.standard_wishart(df, n, size) if resc is None else e.standard_wishart(df, n, size, rescale=resc)
        t.check(isinstance(W, np.ndarray) and W.dtype == np.float64 and W.shape == sh + (n, n), 'standard-shape', f'{desc}: {W.shape}')
        well_formed(t, W, df, n, 'standard', desc)
        want = bartlett(np.random.Generator(tw), df, n, num) / (1 if resc is False else df)
        got = W.reshape(-1, n, n)
        t.evals += 1
        if num and np.abs(got - want).max() > 1e-9 * (1 + np.abs(want).max()):
            bad = None
            N = max(20000, min(100000, 1000000 // n ** 2)) if df <= 10 ** 6 else 20000
            e2 = rg.ExtendedGenerator(CFGS['PCG64DXSM'].make(R.getrandbits(60)))
            big = e2.standard_wishart(df, n, N, rescale=False)
            bad = moments(big, df, np.eye(n))
            if not bad:
                big = e2.standard_wishart(df, n, N, rescale=True) * df
                bad = moments(big, df, np.eye(n))
            if not bad:
                big = np.stack([e2.standard_wishart(df, n, size, rescale=False if resc is False else True).reshape(-1, n, n) for _ in range(4000)]) * (1 if resc is False else df)
                bad = next((x for x in (moments(big[:, k], df, np.eye(n)) for k in range(num)) if x), None)
            if bad:
                t.fail('standard-distribution', f'{desc}: {bad}')
        t.hit('standard', n, kind, None if size is None else len(sh), num > 0, resc)
        if kind != 'huge' and i % 5 == 0:
            a = rg.ExtendedGenerator(cfg.make(seed)).standard_wishart(df, n, size)
            c = rg.ExtendedGenerator(cfg.make(seed)).standard_wishart(df, n, size)
            t.same(a, c, 'standard-reproducible', desc)
    return run


def lin_map(S, W):
    """L with vec(W_k) = L vech(S_k); returns apply(S) and the residual"""
    n = S.shape[-1]
    iu = np.triu_indices(n)
    A, Y = S[:, iu[0], iu[1]], W.reshape(len(W), -1)
    sc = np.abs(A).max() or 1.0
    L = np.linalg.lstsq(A / sc, Y, rcond=None)[0] / sc
    res = float(np.abs(A @ L - Y).max())
    return (lambda M: (M[iu] @ L).reshape(n, n)), res


def same_map(S, W, scale, g, rank, t=None, desc=''):
    """W_k = G' S_k G with G'G = scale?"""
    n = S.shape[-1]
    top = float(np.abs(W).max()) + 1e-300
    ap, res = lin_map(S, W)
    if res > 1e-8 * top:
        return False
    tol = 1e-6 * (np.abs(scale).max() + 1e-300)
    if np.abs(ap(np.eye(n)) - scale).max() > tol:
        iu = np.triu_indices(n)
        if t is not None and np.linalg.cond(S[:, iu[0], iu[1]]) < 1e3 and np.abs(ap(np.eye(n)) - scale).max() > 1e-3 * np.abs(scale).max():
            t.fail('mean', f'{desc}: the draws are a linear image of standard Wishart draws with mean/df {ap(np.eye(n)).tolist()}, scale {scale.tolist()}')
        return False
    for _ in range(3):                 # rank-one in, rank-one psd out: the map is S -> G'SG
        v = g.standard_normal(n)
        m = ap(np.outer(v, v))
        ev = np.linalg.eigvalsh((m + m.T) / 2)
        if n > 1 and np.abs(ev[:-1]).max() > 1e-5 * (abs(ev[-1]) + np.abs(scale).max()):
            return False
    return True


def scale_of(R, g, n, method):
    """(argument, scale, rank, rank argument)"""
    if method == 'factor':
        A = g.standard_normal((n, n)) * R.choice([.2, 1., 5.])
        if R.random() < .4:
            A = np.tril(A)
        return A, A @ A.T, n, None
    kinds = [k for k in KINDS if k not in SINGULAR]
    if R.random() < .25 and n > 1:
        r = R.randint(1, n - 1)
        a = g.standard_normal((n, r))
        s = a @ a.T
        if method == 'cholesky':
            return s, s, r, r
        return s, s, r, R.choice([None, r])
    s = sym_psd(g, n, R.choice(kinds))[0] * R.choice([1, 1, 1, 1e-12, 1e6])
    return s, s, n, R.choice([None, None, n])


def one(i):
    def run(t):
        R = t.rng
        g = nprng(R)
        n = R.choice([1, 2, 2, 3, 3, 4])
        kind = DFK[i % 6]
        df = df_of(R, n, kind)
        method = METHODS[(i // 6) % 4]
        arg, scale, rank, rk = scale_of(R, g, n, method)
        m = n * (n + 1) // 2
        K = m + 4
        size = R.choice([None, (), K, (K,), (2, K), (K,), (1,), [K, 1], (0,), np.int64(K)])
        sh = () if size is None or size == () else (int(size),) if isinstance(size, (int, np.integer)) else tuple(size)
        num = int(np.prod(sh))
        cfg, seed, b, tw = pair(R)
        e = rg.ExtendedGenerator(b)
        if R.random() < .2:
            arg = arg.tolist()
        elif R.random() < .2:
            arg = np.asfortranarray(arg)
        a0 = np.array(arg, copy=True)
        df_arg = R.choice([df, np.int64(df), float(df), np.array(df)])
        desc = f'{cfg.name} seed {seed}: wishart({df_arg!r}, scale{scale.shape} rank {rank}, size={size}, rank={rk}, method={method})'
        W, exc, w = caught(lambda: e.wishart(df_arg, arg, size, check_valid='raise', rank=rk, method=method))
        if exc is not None:
            t.fail(f'refused:{method}', f'{desc} raised {exc!r}')
        t.check(np.array_equal(np.asarray(arg), a0), 'inputs-changed', f'{desc} modified scale')
        t.check(W.shape == sh + (n, n) and W.dtype == np.float64, 'shape', f'{desc}: {W.shape}')
        well_formed(t, W, df, n, f'wishart:{method}', desc, rank)
        t.evals += 1
        ok = True
        te = rg.ExtendedGenerator(tw)
        if num >= K:
            S = te.standard_wishart(df, n, num, rescale=False)
            ok = same_map(S, W.reshape(-1, n, n), scale, g, rank, t, desc)
        elif num:
            # too few draws to recover the map: compare with a call that has enough
            S = te.standard_wishart(df, n, num, rescale=False)
            _, _, b2, t2 = pair(R)
            W2 = rg.ExtendedGenerator(b2).wishart(df, arg, K, rank=rk, method=method)
            S2 = rg.ExtendedGenerator(t2).standard_wishart(df, n, K, rescale=False)
            ok = same_map(S2, W2, scale, g, rank, t, desc)
            ap, _ = lin_map(S2, W2)
            ok = ok and all(np.abs(ap(S[k]) - W.reshape(-1, n, n)[k]).max() <= 1e-6 * (np.abs(W).max() + df * np.abs(scale).max()) for k in range(num))
        if not ok:
            N = max(20000, min(100000, 1000000 // n ** 2)) if df <= 10 ** 6 else 20000
            e2 = rg.ExtendedGenerator(CFGS['PCG64DXSM'].make(R.getrandbits(60)))
            big = e2.wishart(df, arg, N, rank=rk, method=method)
            bad = moments(big, df, scale)
            if not bad:
                big = np.stack([e2.wishart(df, arg, size, rank=rk, method=method).reshape(-1, n, n) for _ in range(4000)])
                bad = next((x for x in (moments(big[:, k], df, scale) for k in range(num)) if x), None)
            if bad:
                t.fail(f'distribution:{method}', f'{desc}: {bad}')
        t.hit('one', method, n, kind, rank < n, rk is None, None if size is None else len(sh))
        t.note(desc)
    return run


BSH = [((3,), ()), ((), (3,)), ((3,), (3,)), ((2, 3), (3,)), ((3, 1), (2,)), ((1,), (4,)), ((2, 1), (1, 3)), ((4,), (1,)), ((2, 2), ()), ((), (2, 2)), ((1,), ()), ((), (1,)), ((3,), (2, 3))]


def batch(i):
    def run(t):
        R = t.rng
        g = nprng(R)
        n = R.choice([1, 2, 3, 3, 4])
        sd, ss = R.choice(BSH)
        method = METHODS[i % 4]
        dfs = np.empty(sd, np.int64)
        for q in np.ndindex(*sd):
            dfs[q] = df_of(R, n, R.choice(DFK[:6]))
        if R.random() < .3 and n > 1:
            dfs[...] = R.randint(1, n - 1)          # all below the dimension
        args, scales = np.empty(ss + (n, n)), np.empty(ss + (n, n))
        for q in np.ndindex(*ss):
            for _ in range(50):
                a, s, r, rk = scale_of(R, g, n, method)
                if r == n:
                    break
            else:
                a = s = np.eye(n)
            args[q], scales[q] = a, s
        lead = np.broadcast_shapes(sd, ss)
        m = n * (n + 1) // 2
        K = m + 4
        pre = R.choice([None, (), (K,), (K,), (K,), (2, K), (1,), (3,)])
        size = None if pre is None else pre + lead
        if size is not None and len(size) == 1 and R.random() < .4:
            size = int(size[0])
        elif size is not None and R.random() < .2:
            size = list(size)
        blk = 1 if pre is None else int(np.prod(pre))
        want = lead if size is None else pre + lead
        cfg, seed, b, tw = pair(R)
        e = rg.ExtendedGenerator(b)
        df_arg = R.choice([dfs, dfs.tolist(), dfs.astype(np.int32), dfs.astype(float)]) if sd else int(dfs)
        sc_arg = R.choice([args, args.tolist(), np.asfortranarray(args)])
        d0, s0 = np.array(df_arg, copy=True), np.array(sc_arg, copy=True)
        desc = f'{cfg.name} seed {seed}: wishart(df{sd}={dfs.tolist()}, scale{scales.shape}, size={size}, method={method})'
        W, exc, w = caught(lambda: e.wishart(df_arg, sc_arg, size, method=method))
        if exc is not None:
            t.fail(f'batch-refused:{method}', f'{desc} raised {exc!r}')
        t.check(not w, f'batch-warned:{method}', lambda: f'{desc} warned {w[0].message}')
        t.check(np.array_equal(np.asarray(df_arg), d0) and np.array_equal(np.asarray(sc_arg), s0), 'inputs-changed', f'{desc} modified its arguments')
        t.check(W.shape == want + (n, n), 'batch-shape', f'{desc}: {W.shape} expected {want + (n, n)}')
        flat = W.reshape((blk,) + lead + (n, n))
        te = rg.ExtendedGenerator(tw)
        DF, SC = np.broadcast_to(dfs, lead), np.broadcast_to(scales, lead + (n, n))
        AR = np.broadcast_to(args, lead + (n, n))
        ok = True
        for q in np.ndindex(*lead):
            wq = flat[(slice(None),) + q]
            well_formed(t, wq, int(DF[q]), n, f'batch:{method}', f'{desc} element {q}')
            S = te.standard_wishart(int(DF[q]), n, blk, rescale=False)
            t.evals += 1
            if blk >= K:
                ok &= same_map(S, wq, SC[q], g, n, t, desc)
            else:
                _, _, b2, t2 = pair(R)
                W2 = rg.ExtendedGenerator(b2).wishart(int(DF[q]), AR[q], K, method=method)
                S2 = rg.ExtendedGenerator(t2).standard_wishart(int(DF[q]), n, K, rescale=False)
                ap, _ = lin_map(S2, W2)
                ok &= all(np.abs(ap(S[k]) - wq[k]).max() <= 1e-6 * (np.abs(wq).max() + DF[q] * np.abs(SC[q]).max()) for k in range(blk))
        if not ok:
            N = 8000
            e2 = rg.ExtendedGenerator(CFGS['PCG64DXSM'].make(R.getrandbits(60)))
            if pre:
                big = e2.wishart(df_arg, sc_arg, (N,) + want, method=method)
            else:
                big = np.stack([e2.wishart(df_arg, sc_arg, size, method=method) for _ in range(3000)])
            big = big.reshape((len(big), blk) + lead + (n, n))
            for q in np.ndindex(*lead):
                for k in range(blk):
                    bad = moments(big[(slice(None), k) + q], int(DF[q]), SC[q])
                    if bad:
                        t.fail(f'batch-distribution:{method}', f'{desc}: element {q}: {bad}')
            # one call of the original form: elements must not repeat each other's draw
            ws = [np.linalg.solve(SC[q], flat[(k,) + q]) for q in np.ndindex(*lead) for k in range(blk)] if n > 1 else []
            tr = [round(float(np.trace(x)), 9) for x in ws]
            t.check(len(set(tr)) == len(tr), f'batch-repeat:{method}', f'{desc}: elements repeat a draw')
        t.hit('batch', method, n, sd, ss, pre, bool((dfs < n).any()), bool((dfs >= n).any()))
        t.note(desc)
    return run


def huge(i):
    """very many degrees of freedom: every draw lies close to df * scale"""
    def run(t):
        R = t.rng
        g = nprng(R)
        n = R.choice([1, 2, 3])
        df = R.choice([2 ** 31 - 1, 2 ** 31, 2 ** 31 + 7, 2 ** 32 + 3, 2 ** 40 + 1, 10 ** 14])
        s = sym_psd(g, n, R.choice(['full', 'diag', 'tri']))[0]
        cfg, seed, b, tw = pair(R)
        form = i % 3
        a = (df, s, None) if form == 0 else ([df, df], s, None) if form == 1 else (df, np.stack([s, s]), (3, 2))
        W = rg.ExtendedGenerator(b).wishart(*a).reshape(-1, n, n)
        d = np.diag(s)
        lim = 10 * np.sqrt((s ** 2 + np.outer(d, d)) / df) + 1e-9 * np.abs(s).max()
        t.obs(len(W))
        t.check(bool((np.abs(W / df - s) <= lim).all()), 'huge-df', lambda: f'{cfg.name} seed {seed}: wishart(df={df}) draw/df = {(W[0] / df).tolist()}, scale {s.tolist()}')
        t.hit('huge', df, n, form)
    return run


I2, I3 = np.eye(2), np.eye(3)
NPSD = np.array([[1., 2.], [2., 1.]])
BAD = [lambda e: e.wishart(0, I2), lambda e: e.wishart(-3, I2), lambda e: e.wishart(2.5, I2), lambda e: e.wishart([3, 0], I2), lambda e: e.wishart([3, 2.5], I2),
       lambda e: e.wishart([], I2), lambda e: e.wishart(float('nan'), I2), lambda e: e.wishart(3, [1, 2]), lambda e: e.wishart(3, np.ones((2, 3))),
       lambda e: e.wishart(3, np.empty((0, 0))), lambda e: e.wishart(3, 5.0), lambda e: e.wishart(3, None), lambda e: e.wishart([3, 4], np.stack([I2] * 3)),
       lambda e: e.wishart([3, 4], I2, 3), lambda e: e.wishart([3, 4], I2, (2, 3)), lambda e: e.wishart([[3], [4]], I2, (2,)), lambda e: e.wishart(3, np.stack([I2] * 3), ()),
       lambda e: e.wishart(3, NPSD, check_valid='raise'), lambda e: e.wishart(3, NPSD, 4, check_valid='raise'), lambda e: e.wishart(3, NPSD, check_valid='raise', method='eigh'),
       lambda e: e.wishart(3, NPSD, method='cholesky'), lambda e: e.wishart([3, 1], NPSD, check_valid='raise'), lambda e: e.wishart(3, np.stack([I2, NPSD]), check_valid='raise'),
       lambda e: e.wishart([3, 3], np.stack([I2, NPSD]), (2, 2), method='cholesky'), lambda e: e.wishart('3', 'x'), lambda e: e.wishart(3, I2, -1),
       lambda e: e.standard_wishart(0, 3), lambda e: e.standard_wishart(-1, 3), lambda e: e.standard_wishart(3, -1), lambda e: e.standard_wishart(3, 2, -1),
       lambda e: e.standard_wishart(3, 2, (2, -2)), lambda e: e.standard_wishart('3', 2), lambda e: e.standard_wishart(3, 2, (-2, -3)),
       lambda e: e.standard_wishart(1, 2, (-2, -3)), lambda e: e.wishart(3, I2, (-2, -2))]


def badcall(i):
    def run(t):
        cfg, seed, b, tw = pair(t.rng)
        _, exc, _ = caught(lambda: BAD[i](rg.ExtendedGenerator(b)))
        t.check(isinstance(exc, (ValueError, TypeError)), f'accepted:call:{i}', f'invalid call #{i}: {exc!r}')
        untouched(t, b, tw, f'refused-moved:call:{i}', f'invalid call #{i}')
        t.hit('bad', i)
    return run


def cases(ctx):
    for i in range(ctx.n(420, 5000)):
        yield f'standard/{i}', standard(i)
    for i in range(ctx.n(720, 8000)):
        yield f'one/{i}', one(i)
    for i in range(ctx.n(400, 5000)):
        yield f'batch/{i}', batch(i)
    for i in range(ctx.n(36, 300)):
        yield f'huge/{i}', huge(i)
    for i in range(len(BAD)):
        yield f'bad/{i}', badcall(i)
