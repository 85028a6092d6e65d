"""helpers for the multivariate monitors: parameter generators, linear-map recovery, moment oracles"""
import warnings
from checks.common import *
from hist import *

ENG = ['PCG64', 'SFC64', 'Xoshiro256', 'Philox4x64', 'MT19937', 'ChaCha', 'DSFMT', 'LXM', 'JSF', 'EFIIX64', 'Romu', 'Xorshift1024']
ENG = [e for e in ENG if e in CFGS]


def pair(R, pre=True):
    """a generator with a twin at the same (odd) place of the stream"""
    cfg = CFGS[R.choice(ENG)]
    seed = R.getrandbits(60)
    b, tw = cfg.make(seed), cfg.make(seed)
    if pre:
        ops = ops_string(R, R.randrange(7))
        future(b, ops)
        future(tw, ops)
    return cfg, seed, b, tw


def untouched(t, b, tw, key, what):
    ops = ops_string(t.rng, 5)
    t.same(future(b, ops), future(tw, ops), key, what)


def nprng(R):
    return np.random.default_rng(R.getrandbits(60))


def sym_psd(g, n, kind):
    """real symmetric positive semi-definite; returns (cov, rank)"""
    if kind == 'full':
        a = g.standard_normal((n, n + 2))
        return a @ a.T, n
    if kind == 'diag':
        return np.diag(g.uniform(.1, 3, n)), n
    if kind == 'eye':
        return np.eye(n) * g.choice([1., .25, 9.]), n
    if kind == 'low':
        r = int(g.integers(0 if n > 1 else 0, n)) if n > 1 else 0
        a = g.standard_normal((n, r)) if r else np.zeros((n, 1))
        return a @ a.T, r
    if kind == 'zero-var':
        a = g.standard_normal((n, n))
        a[int(g.integers(n))] = 0
        return a @ a.T, n - 1
    if kind == 'equi':                # repeated eigenvalues, strong correlation
        rho = g.choice([.5, .9, -.9 / max(1, n - 1), .999])
        return (1 - rho) * np.eye(n) + rho * np.ones((n, n)), n
    if kind == 'big':
        a = g.standard_normal((n, n + 1)) * 50
        return a @ a.T, n
    if kind == 'small':
        a = g.standard_normal((n, n + 1)) * .02
        return a @ a.T, n
    if kind == 'mixed':               # very different variances
        d = 10.0 ** g.uniform(-2, 2, n)
        a = g.standard_normal((n, n + 2))
        return (a @ a.T) * np.sqrt(np.outer(d, d)), n
    if kind == 'tri':                 # banded, non-symmetric-looking factors
        a = np.tril(g.standard_normal((n, n))) + 1.5 * np.eye(n)
        return a @ a.T, n
    raise KeyError(kind)


KINDS = ['full', 'full', 'diag', 'eye', 'low', 'zero-var', 'equi', 'big', 'small', 'mixed', 'tri']
SINGULAR = ('low', 'zero-var')


def recover(Z, X):
    """X ~ Z F in the least-squares sense -> (F, largest residual)"""
    F = np.linalg.lstsq(Z, X, rcond=None)[0]
    return F, float(np.abs(Z @ F - X).max(initial=0.0))


def wrong_map(Z, X, F, res, S):
    """the rows are exactly Z F for independent standard normals Z, so that their covariance is exactly F'F: is it not S?"""
    top = float(np.abs(S).max(initial=0))
    x = float(np.abs(X).max(initial=0))
    if not Z.size or res > 1e-9 * x or top == 0 or np.linalg.cond(Z) > 1e3:
        return None
    G = F.T @ F
    if np.abs(G - S).max() > 1e-5 * max(top, float(np.abs(G).max())):
        return f'the draws are a linear map of the normals in the stream with covariance {np.round(G, 6).tolist()}, requested {np.round(S, 6).tolist()}'
    return None


def moments_ok(X, mean, cov, k=8.0):
    """X: N draws (N,n) real; None or a complaint"""
    N = len(X)
    d = X - mean
    v = np.diag(cov)
    tiny = 1e-7 * (1 + np.abs(mean).max(initial=0)) + 1e-7 * np.sqrt(np.abs(cov).max(initial=0))
    m = d.mean(0)
    bad = np.abs(m) > k * np.sqrt(v / N) + tiny
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        return f'component {i}: sample mean off by {m[i]:.4g} ({np.abs(m[i]) / np.sqrt(v[i] / N + 1e-300):.1f} sigma, N={N})'
    S = d.T @ d / N
    se = np.sqrt((np.outer(v, v) + cov ** 2) / N)
    bad = np.abs(S - cov) > k * se + tiny ** 2 + 1e-7 * np.abs(cov).max(initial=0)
    if bad.any():
        i, j = map(int, np.argwhere(bad)[0])
        return f'entry ({i},{j}): sample covariance {S[i, j]:.4g}, requested {cov[i, j]:.4g} ({np.abs(S[i, j] - cov[i, j]) / (se[i, j] + 1e-300):.1f} sigma, N={N})'
    # the same along the principal directions, where nearly dependent components show
    on = v > 1e-12 * v.max(initial=0)
    if on.sum() > 1:
        sd = np.sqrt(v[on])
        lam, V = np.linalg.eigh(cov[np.ix_(on, on)] / np.outer(sd, sd))
        big = lam > 1e-6
        y = (d[:, on] / sd) @ V[:, big] / np.sqrt(lam[big])
        if np.all(tiny < 1e-2 * sd[:, None] * np.sqrt(lam[big].min())):
            m, Q = y.mean(0), y.T @ y / N
            if (np.abs(m) > k / np.sqrt(N)).any() or (np.abs(Q - np.eye(len(Q))) > k * np.sqrt((1 + np.eye(len(Q))) / N)).any():
                return f'along the principal directions of the requested covariance the sample has mean {np.round(m, 3).tolist()} and covariance {np.round(Q, 3).tolist()} instead of 0 and 1 (N={N})'
    return None


LEADS = [((), ()), ((), ()), ((3,), ()), ((), (3,)), ((2, 3), (3,)), ((3,), (2, 3)), ((3, 1), (1, 2)), ((1,), (4,)), ((2, 1), (2, 3)),
         ((2, 2), (2, 2)), ((1, 1), ()), ((), (1,)), ((1,), (1,)), ((4,), (4,)), ((2, 1, 2), (3, 1)), ((), (2, 2))]


def out_lead(size, lead, none_lead):
    """documented shape of the result without the trailing dimension(s), or None where size is incompatible"""
    if size is None:
        return lead
    sz = (int(size),) if isinstance(size, (int, np.integer)) else tuple(size)
    if none_lead:
        return sz
    if len(sz) < len(lead):
        return None
    k = len(sz) - len(lead)
    tail = []
    for s, o in zip(sz[k:], lead):
        if not (s == 1 or o == 1 or s == o):
            return None
        tail.append(s if o == 1 else o)
    return sz[:k] + tuple(tail)


def caught(f):
    """run f, returning (result or None, exception or None, warnings)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            return f(), None, w
        except Exception as e:      # noqa
            return None, e, w
