"""P17: multivariate_complex_normal realises location, covariance and relation."""
from checks.mv import *

METHODS = ['svd', 'eigh', 'cholesky']
LEADS3 = [((), (), ())] * 3 + [((3,), (), ()), ((), (3,), ()), ((), (), (3,)), ((), (3,), (3,)), ((2, 3), (3,), ()), ((3, 1), (1, 2), (2,)), ((2, 1), (3,), (2, 1)),
                               ((2,), (2,), (2,)), ((1,), (1,), (1,)), ((), (2, 1), (3,)), ((4,), (1,), ()), ((2, 2), (2, 2), (2, 2)), ((), (2, 3), (1, 3)), ((1, 2), (3, 1), ())]


def gen_pair(R, g, n, singular):
    """gamma, relation of x = B w + D u (w real, u circular complex): always a valid pair"""
    kind = R.choice(['gen', 'gen', 'circ', 'proper', 'realish', 'low'] if singular else ['gen', 'gen', 'circ', 'strong'])
    B = g.standard_normal((n, n)) + 1j * g.standard_normal((n, n))
    D = (g.standard_normal((n, n + 1)) + 1j * g.standard_normal((n, n + 1))) * R.choice([.5, 1., 3.])
    if kind == 'circ':
        B = B * 0
    elif kind == 'strong':
        D = D * .3
    elif kind == 'proper':
        B = B * 0
        D = D[:, :1]
    elif kind == 'realish':
        D = D * 0
    elif kind == 'low':
        B = B[:, :1]
        D = D[:, :max(1, n - 1)] * (0 if R.random() < .3 else 1)
    return B @ B.conj().T + D @ D.conj().T, B @ B.T, kind


def common(R, g, n, lg, lr, singular):
    """arrays whose broadcast combinations are all valid"""
    if lg == lr:
        G, C, ks = np.empty(lg + (n, n), complex), np.empty(lr + (n, n), complex), set()
        for q in np.ndindex(*lg):
            G[q], C[q], k = gen_pair(R, g, n, singular)
            ks.add(k)
        return G, C, tuple(sorted(ks))
    # gamma dominating every relation used with it
    C = np.empty(lr + (n, n), complex)
    top = 0
    for q in np.ndindex(*lr):
        a = g.standard_normal((n, n)) + 1j * g.standard_normal((n, n))
        C[q] = (a + a.T) * R.choice([0, .3, .3])
        top = max(top, np.linalg.norm(C[q], 2))
    G = np.empty(lg + (n, n), complex)
    for q in np.ndindex(*lg):
        a = (g.standard_normal((n, n)) + 1j * g.standard_normal((n, n))) * .7
        G[q] = a @ a.conj().T + (top + .2) * np.eye(n)
    return G, C, 'sep'


def real_cov(G, C):
    """covariance of (re, im)"""
    return .5 * np.block([[(G + C).real, (C - G).imag], [(G + C).imag, (G - C).real]])


def draw(i):
    def run(t):
        R = t.rng
        g = nprng(R)
        n = R.choice([1, 1, 2, 2, 3, 4])
        ll, lg, lr = R.choice(LEADS3)
        method = METHODS[i % 3]
        G, C, kind = common(R, g, n, lg, lr, method != 'cholesky')
        g_none = lg == () and R.random() < .12
        c_none = lr == () and R.random() < .15
        if g_none:
            G, kind = np.eye(n, dtype=complex), 'none'
            C = C * (.9 / max(1e-9, max(np.linalg.norm(C[q], 2) for q in np.ndindex(*lr))))
        if c_none:
            C = np.zeros((n, n), complex)
        loc = (g.standard_normal(ll + (n,)) + 1j * g.standard_normal(ll + (n,))) * R.choice([0, 1, 50])
        if R.random() < .1:
            loc = np.round(loc.real)
        none_lead = ll == lg == lr == ()
        lead = np.broadcast_shapes(ll, lg, lr)
        cl = np.broadcast_shapes(lg, lr)
        K = 6 * n + 8
        pre = R.choice([None, (), (2,), (K,), (K,), (K,), (2, K), (0,)])
        if pre is None or (pre == () and not lead):
            size = None
        else:
            tail = tuple(o if o == 1 or R.random() < .8 else 1 for o in lead)
            size = pre + tail
            if len(size) == 1 and R.random() < .5:
                size = R.choice([int, np.int64])(size[0])
            elif R.random() < .2:
                size = list(size)
        want = out_lead(size, lead, none_lead)
        cfg, seed, b, tw = pair(R)
        e = rg.ExtendedGenerator(b)
        cv = R.choice(['raise', 'warn', 'ignore'])
        args = [loc, None if g_none else G, None if c_none else C]
        if R.random() < .2:
            args = [None if a is None else a.tolist() for a in args]
        elif R.random() < .2:
            args = [None if a is None else np.asfortranarray(a) for a in args]
        X, exc, w = caught(lambda: e.multivariate_complex_normal(*args, size, check_valid=cv, method=method))
        desc = f'{cfg.name} seed {seed}: multivariate_complex_normal(loc{loc.shape}, gamma{G.shape}, relation{C.shape}, size={size}, method={method}) [{kind}]'
        if exc is not None:
            t.fail(f'refused:{method}', f'{desc} raised {exc!r}')
        t.check(not w, f'warned:{method}', lambda: f'{desc} warned {w[0].message}')
        t.check(isinstance(X, np.ndarray) and X.dtype == np.complex128 and X.shape == want + (n,), 'shape', lambda: f'{desc}: {X.dtype} {X.shape} expected {want + (n,)}')
        Z = np.random.Generator(tw).standard_normal(want + (2 * n,))
        D = X - np.broadcast_to(loc, want + (n,))
        D = np.concatenate([D.real, D.imag], -1)
        Gb, Cb = np.broadcast_to(G, cl + (n, n)), np.broadcast_to(C, cl + (n, n))
        idx = np.broadcast_to(np.arange(int(np.prod(cl))).reshape(cl), want)
        lx = float(np.abs(loc).max(initial=0))
        ok = True
        t.obs(X.size)
        for k, q in enumerate(np.ndindex(*cl)):
            S = real_cov(Gb[q], Cb[q])
            mx = float(np.abs(S).max(initial=0))
            rows, zs = D[idx == k], Z[idx == k]
            if not len(rows):
                continue
            tol = 1e-8 * mx + 40 * np.sqrt(mx) * 1e-11 * (1 + lx) + 1e-19 * (1 + lx) ** 2
            err = 1e-11 * (1 + lx) + 1e-8 * np.sqrt(mx)
            if len(rows) >= 2 * n + 2:
                F, res = recover(zs, rows)
                good = res <= err and np.abs(F.T @ F - S).max() <= tol
            else:
                _, _, b2, t2 = pair(R)
                x2 = rg.ExtendedGenerator(b2).multivariate_complex_normal(np.zeros(n), Gb[q], Cb[q], K, method=method)
                F, res = recover(np.random.Generator(t2).standard_normal((K, 2 * n)), np.concatenate([x2.real, x2.imag], -1))
                good = res <= err and np.abs(F.T @ F - S).max() <= tol and np.abs(zs @ F - rows).max() <= err
            t.evals += 1
            if not good:
                few = len(rows) < 2 * n + 2
                bad = wrong_map(np.eye(2 * n) if few else zs, F if few else rows, F, res, S) if few or lx * lx < 1e4 * mx else None
                if bad:
                    t.fail(f'distribution:{method}', f'{desc}: {bad}')
            ok &= bool(good)
        if not ok and X.size:
            N = 6000 if size is None or len(want) == len(lead) else max(6000, min(100000, 600000 // (n * n * max(1, int(np.prod(want))))))
            e2 = rg.ExtendedGenerator(CFGS['PCG64DXSM'].make(R.getrandbits(60)))
            if size is None or len(want) == len(lead):
                big = np.stack([e2.multivariate_complex_normal(*args, size, method=method) for _ in range(N)])
            else:
                base = tuple(size) if not isinstance(size, (int, np.integer)) else (int(size),)
                big = e2.multivariate_complex_normal(*args, (N,) + base, method=method)
            for q in np.ndindex(*want):
                S = real_cov(np.broadcast_to(G, want + (n, n))[q], np.broadcast_to(C, want + (n, n))[q])
                x = big[(slice(None),) + q]
                m0 = np.broadcast_to(loc, want + (n,))[q]
                bad = moments_ok(np.concatenate([x.real, x.imag], -1), np.concatenate([m0.real, m0.imag]), S)
                if bad:
                    t.fail(f'distribution:{method}', f'{desc}: element {q}: (re.., im..) {bad}')
        A = rg.ExtendedGenerator(cfg.make(seed)).multivariate_complex_normal(*args, size, method=method)
        B = rg.ExtendedGenerator(cfg.make(seed)).multivariate_complex_normal(*args, size, method=method)
        t.same(A, B, 'reproducible', desc)
        t.hit('draw', method, n, ll, lg, lr, None if size is None else len(want), kind, cv)
        t.note(f'{desc}: recovered maps match')
    return run


def invalid(i):
    def run(t):
        R = t.rng
        g = nprng(R)
        n = R.choice([2, 3])
        lead = R.choice([(), (3,), (2, 2)])
        G, C = np.empty(lead + (n, n), complex), np.empty(lead + (n, n), complex)
        for q in np.ndindex(*lead):
            G[q], C[q], _ = gen_pair(R, g, n, False)
        q = tuple(R.randrange(s) for s in lead)
        kind = ['gamma-nonherm', 'gamma-diag-imag', 'rel-nonsym', 'gamma-sym-complex', 'indef-raise', 'indef-warn', 'indef-ignore', 'rel-too-big'][i % 8]
        cv, method = 'raise', R.choice(['svd', 'eigh'])
        a, c = R.sample(range(n), 2)
        if kind in ('gamma-nonherm', 'rel-nonsym') and R.random() < .5:
            # asymmetries of gamma and relation that cancel in one block of the implied covariance
            d = np.zeros((n, n), complex)
            d[a, c], d[c, a] = R.choice([(.4, -.4), (.5, 0), (0, .5)])
            d = d * R.choice([1, 1j])
            if (d - d.conj().T).any():
                G[q] += d
            else:
                G[q][a, c] += .4
            if (d - d.T).any():
                C[q] += R.choice([1, -1]) * d
            kind += '-cancel'
        elif kind == 'gamma-nonherm':
            G[q][a, c] += 1
        elif kind == 'gamma-diag-imag':
            G[q][a, a] += .7j
        elif kind == 'rel-nonsym':
            C[q][a, c] += R.choice([1, 1j])
        elif kind == 'gamma-sym-complex':
            G[q][a, c] += .8j
            G[q][c, a] += .8j
        elif kind.startswith('indef'):
            cv = kind[6:]
            G[q] = G[q] - (np.linalg.eigvalsh(G[q])[0] + 1.5) * np.eye(n)
            C[q] = 0
        else:
            C[q] = C[q] * 0 + np.eye(n) * (np.linalg.norm(G[q], 2) * 1.5)
        size = R.choice([None, (2,) + lead])
        cfg, seed, b, tw = pair(R)
        e = rg.ExtendedGenerator(b)
        loc = np.zeros(n)
        X, exc, w = caught(lambda: e.multivariate_complex_normal(loc, G, C, size, check_valid=cv, method=method))
        desc = f'{cfg.name} seed {seed}: {kind} at {q} of {lead}, method={method}, check_valid={cv}, size={size}'
        if cv == 'raise':
            t.check(isinstance(exc, ValueError), f'accepted:{kind}', f'{desc}: {exc!r}')
            untouched(t, b, tw, f'refused-moved:{kind}', desc)
        else:
            t.check(exc is None, f'invalid:{kind}', f'{desc} raised {exc!r}')
            t.check(bool([x for x in w if issubclass(x.category, RuntimeWarning)]) == (cv == 'warn'), f'invalid:{kind}', f'{desc}: {len(w)} warnings')
        t.hit('invalid', kind, lead, q, method, size is None)
    return run


I2 = np.eye(2)
BAD = [lambda e: e.multivariate_complex_normal(1.0), lambda e: e.multivariate_complex_normal([]), lambda e: e.multivariate_complex_normal([0, 0], [1, 1]),
       lambda e: e.multivariate_complex_normal([0, 0], np.eye(3)), lambda e: e.multivariate_complex_normal([0, 0], np.ones((2, 3))),
       lambda e: e.multivariate_complex_normal([0, 0], I2, np.eye(3)), lambda e: e.multivariate_complex_normal([0, 0], I2, [0, 0]),
       lambda e: e.multivariate_complex_normal([0, 0], np.stack([I2] * 2), np.stack([I2 * 0] * 3)),
       lambda e: e.multivariate_complex_normal(np.zeros((2, 2)), np.stack([I2] * 3)),
       lambda e: e.multivariate_complex_normal(np.zeros((3, 2)), I2, None, 2), lambda e: e.multivariate_complex_normal([0, 0], np.stack([I2] * 3), None, (4,)),
       lambda e: e.multivariate_complex_normal([0, 0], np.stack([I2] * 3), None, (3, 2)), lambda e: e.multivariate_complex_normal([0, 0], I2, None, -2),
       lambda e: e.multivariate_complex_normal([0, 0], np.empty((0, 2, 2))), lambda e: e.multivariate_complex_normal(['a', 'b'])]


def badcall(i):
    def run(t):
        cfg, seed, b, tw = pair(t.rng)
        _, exc, _ = caught(lambda: BAD[i](rg.ExtendedGenerator(b)))
        t.check(isinstance(exc, (ValueError, TypeError)), f'accepted:call:{i}', f'invalid call #{i}: {exc!r}')
        untouched(t, b, tw, f'refused-moved:call:{i}', f'invalid call #{i}')
        t.hit('bad', i)
    return run


def cases(ctx):
    for i in range(ctx.n(900, 12000)):
        yield f'draw/{METHODS[i % 3]}/{i}', draw(i)
    for i in range(ctx.n(96, 960)):
        yield f'invalid/{i}', invalid(i)
    for i in range(len(BAD)):
        yield f'bad/{i}', badcall(i)
