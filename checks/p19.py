"""P19: a refused operation changes nothing."""
import warnings
from checks.common import *
from hist import *

ISeq = np.random.bit_generator.ISeedSequence


class Boom(RuntimeError):
    pass


class Faulty(ISeq):
    """a seed sequence that fails (raises) at its k-th request"""

    def __init__(self, k, seed=5):
        self.k, self.ss, self.n = k, np.random.SeedSequence(seed), 0

    def generate_state(self, n_words, dtype=np.uint32):
        self.n += 1
        if self.n > self.k:
            raise Boom('entropy source failed')
        return self.ss.generate_state(n_words, dtype)


class BadInt:
    """an integer that refuses to be one at the last moment"""

    def __init__(self, at):
        self.at, self.n = at, 0

    def _v(self):
        self.n += 1
        if self.n > self.at:
            raise Boom('no longer an integer')
        return 5

    __index__ = __int__ = _v

    def __eq__(self, o):
        return o == 5

    def __hash__(self):
        return 5


SEEDS = [-1, 'abc', 1.5, float('nan'), {}, {'a': 1}, [-1], [1.5], ['x'], [2, None], object(), b'\xff\xfe', (1, (2, 'q')), np.array([1.5]),
         np.array([-3]), np.array([2.0 ** 80]), 2 ** 70 + .5, 3 + 4j, np.array(['a'])]
VALS = [-1, 'abc', '', 1.5, float('nan'), float('inf'), {}, [], object(), b'12', 2 ** 600, -2 ** 600, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18],
        np.array([1.5, 2.5]), np.array([[1, 2], [3, 4]], np.uint64), np.array([-1, -2]), np.array([1, 2, 3], np.float64), np.arange(40, dtype=np.uint64),
        np.array(['a', 'b']), [None, 1], [2 ** 70, 1], 2 ** 64, 2 ** 128, 2 ** 256, -2 ** 31, 3 + 4j, np.array([], np.uint64), np.nan, [1.5, 1], [-1, 5]]


def hostile_vals(R):
    return [R.choice(VALS), BadInt(R.randrange(3))] if R.random() < .12 else [R.choice(VALS)]


def seed_calls(cfg, R):
    """(text, call) of seed() calls that a generator may refuse"""
    out = []
    c = cfg.cls
    for s in R.sample(SEEDS, 4):
        out.append((f'seed({s!r})', lambda b, s=s: b.seed(s)))
    k = R.randrange(4)
    out.append((f'seed(seed sequence failing at request {k})', lambda b, k=k: b.seed(Faulty(k))))
    names = {rg.PCG64: ['inc'], rg.PCG32: ['inc'], rg.LCG128Mix: ['inc'], rg.Tyche: ['idx'], rg.HC128: ['key']}.get(c)
    if names is None:
        names = ['key', 'counter'] if cfg.ctr_bits else ['key'] if c in (rg.ChaCha,) else []
    if c in (rg.Squares, rg.Philox, rg.ThreeFry, rg.AESCounter, rg.SPECK128, rg.ChaCha):
        names = ['key', 'counter']
    good = {'key': 5, 'counter': 7, 'inc': 9, 'idx': 3}
    for _ in range(6 if names else 0):
        kw = {}
        for nme in names:
            z = R.random()
            if z < .45:
                kw[nme] = hostile_vals(R)[-1]
            elif z < .8:
                kw[nme] = good[nme]
        if R.random() < .4:
            pos = (R.choice([None, 3, 2 ** 40, R.choice(SEEDS)]),)
        else:
            pos = ()
        txt = f'seed({", ".join([repr(x) for x in pos] + [f"{a}={v!r}" for a, v in kw.items()])})'
        out.append((txt, lambda b, pos=pos, kw=kw: b.seed(*pos, **kw)))
    out.append(('seed(1, nosuch=2)', lambda b: b.seed(1, nosuch=2)))
    out.append(('seed(1, 2, 3, 4, 5)', lambda b: b.seed(1, 2, 3, 4, 5)))
    return out


def move_calls(cfg, R):
    out = []
    if hasattr(cfg.cls, 'advance'):
        for _ in range(3):
            v = hostile_vals(R)[-1]
            out.append((f'advance({v!r})', lambda b, v=v: b.advance(v)))
        if cfg.cls in (rg.Philox, rg.ThreeFry):
            v = hostile_vals(R)[-1]
            out.append((f'advance({v!r}, False)', lambda b, v=v: b.advance(v, False)))
        out.append(('advance()', lambda b: b.advance()))
    for nme in ('jump', 'jumped'):
        if hasattr(cfg.cls, nme):
            v = R.choice([-1, None, 1.5, float('nan'), None, {}, [], object(), 2 ** 70, -2 ** 70, 2 ** 63, BadInt(0), 3 + 4j])
            if cfg.cls in (rg.MT19937, rg.SFMT, rg.DSFMT) and isinstance(v, int) and v > 2 ** 20:
                v = None
            out.append((f'{nme}({v!r})', lambda b, v=v, nme=nme: getattr(b, nme)(v)))
    v = R.choice([-1, 'abc', 1.5, float('nan'), {}, object(), 2 ** 62, (2, -1), (2, 'x'), (2 ** 40, 2 ** 40), [1.5], -2 ** 70, 2 ** 70])
    out.append((f'random_raw({v!r})', lambda b, v=v: b.random_raw(v)))
    v = R.choice(['abc', float('nan'), {}, object(), (2, 'x'), -2 ** 70, 2 ** 70])
    out.append((f'random_raw({v!r}, False)', lambda b, v=v: b.random_raw(v, False)))
    out.append(('_benchmark(3, "other")', lambda b: b._benchmark(3, 'other')))
    out.append(('generator', lambda b: b.generator))
    return out


# ---------------------------------------------------------------------------------------------------------------- state
def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield path + (k,)
            yield from leaves(x[k], path + (k,))


def get(d, path):
    for p in path:
        d = d[p]
    return d


def put(d, path, v):
    d = copy.deepcopy(d)
    e = d
    for p in path[:-1]:
        e = e[p]
    if v is DEL:
        del e[path[-1]]
    else:
        e[path[-1]] = v
    return d


DEL = object()


def mutants(x, R):
    """replacements of one entry of a state"""
    base = [None, 'abc', -1, 2 ** 200, 1.5, float('nan'), object(), {}, [], [[1], [2, 3]], BadInt(R.randrange(3)), b'xy', -2 ** 63 - 1]
    if isinstance(x, np.ndarray):
        n = x.size
        a = x.copy()
        base += [x.ravel()[:-1].copy(), np.concatenate([x.ravel(), x.ravel()[:1]]), x.reshape(1, *x.shape), x.astype(object) * 2 ** 70,
                 x.astype(object) - 2 ** 66, x.astype(np.complex128) + 1j, np.zeros(0, x.dtype), np.zeros((n, 2), x.dtype),
                 list(x.ravel().tolist())[:-1] + ['x'], list(x.ravel().tolist())[:-1] + [None], list(x.ravel().tolist())[:-1] + [-1],
                 np.full(x.shape, np.nan), np.array(['q'] * n).reshape(x.shape), x.astype(np.float64) + .5, np.array(5),
                 (x.ravel().tolist()[:-1] + [BadInt(0)])]
        if n > 3:
            base += [x.ravel()[:n // 2].copy(), x.reshape(n, 1)]
    elif isinstance(x, dict):
        base += [list(x.items()), tuple(x.values()), copy.deepcopy({k: x[k] for k in list(x)[1:]})]
    elif isinstance(x, str):
        base += ['NoSuch', x + 'x', x.upper(), '', x.encode(), 'PCG64' if 'PCG64' not in x else 'Philox']
    elif isinstance(x, (int, np.integer)):
        base += [int(x) + 2 ** 64, int(x) + 2 ** 128, int(x) + 2 ** 256, -int(x) - 1, str(int(x)), [int(x)], np.array([int(x)] * 2, object), complex(x), 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 16,
                 1000, 7, -5]
    return base


def state_calls(b, cfg, R):
    st = b.state
    ps = list(leaves(st))
    out = []
    for _ in range(10):
        p = R.choice(ps)
        if R.random() < .25:
            v, d = 'deleted', put(st, p, DEL)
        else:
            v = R.choice(mutants(get(st, p), R))
            d = put(st, p, v)
            if R.random() < .3:                       # two faults at once
                q = R.choice(ps)
                if q[:len(p)] != p and p[:len(q)] != q:
                    d = put(d, q, R.choice(mutants(get(st, q), R)))
        if R.random() < .7:                           # make the valid part of the assignment differ from the current state
            d = perturb(d, R, p)
        how = R.choice(['state', 'state', '__setstate__'])
        txt = f'{how} = <state with {"/".join(map(str, p))} {short(v)}>'
        if how == 'state':
            out.append((txt, lambda b, d=d: setattr(b, 'state', d)))
        else:
            out.append((txt, lambda b, d=d: b.__setstate__(d)))
    whole = R.choice([None, 5, 'abc', [], [st], object(), {}, {'bit_generator': st['bit_generator']}, tuple(st.items()), {1: 2}])
    out.append((f'state = {short(whole)}', lambda b: setattr(b, 'state', whole)))
    other = CFGS[R.choice(list(CFGS))]
    if other.cls is not cfg.cls:
        o = other.make(3).state
        out.append((f'state = <state of {other.name}>', lambda b: setattr(b, 'state', o)))
        if R.random() < .5:
            o2 = dict(o, bit_generator=st['bit_generator'])
            out.append((f'state = <state of {other.name} under this name>', lambda b: setattr(b, 'state', o2)))
    return out


def perturb(d, R, keep):
    """change words elsewhere in the state so that a partial assignment shows"""
    d = copy.deepcopy(d)

    def go(x, path):
        for k in list(x):
            v = x[k]
            if path + (k,) == keep:
                continue
            if isinstance(v, dict):
                go(v, path + (k,))
            elif isinstance(v, np.ndarray) and v.dtype.kind in 'ui' and v.size and v.dtype.itemsize >= 4:
                w = v.copy()
                w.ravel()[R.randrange(w.size)] ^= w.dtype.type(R.getrandbits(31) << 1)
                x[k] = w
            elif isinstance(v, int) and not isinstance(v, bool) and k not in SMALL and v > 2 ** 33:
                x[k] = v ^ (R.getrandbits(31) << 1)
            elif k == 'has_uint32' and isinstance(v, int):
                x[k] = 1 - v if v in (0, 1) else v
            elif k == 'uinteger' and isinstance(v, int):
                x[k] = R.getrandbits(32)
    go(d, ())
    return d


SMALL = ('pos', 'buffer_pos', 'buffer_loc', 'idx', 'offset', 'rounds', 'has_uint32', 'variant', 'number', 'width', 'n', 'w', 'use_dxsm', 'dxsm')


def short(v):
    s = repr(v)
    return s if len(s) < 60 else s[:57] + '...'


# ------------------------------------------------------------------------------------------------------------- consumers
def bad_outs(R):
    ro = np.empty(4)
    ro.flags.writeable = False
    return [np.empty(3, np.float32), np.empty(8)[::2], np.empty((2, 2))[:, 1], 'abc', [1., 2.], np.empty(4, np.complex128), np.empty(4, '>f8'), ro, np.empty(5, np.int64)]


def nan_mat(n):
    a = np.eye(n)
    a[0, 0] = np.nan
    return a


def gen_calls(R):
    """calls on an ExtendedGenerator"""
    n = R.randint(1, 4)
    C = [
        ('uintegers(bits=7)', lambda g: g.uintegers(3, bits=7)),
        ('uintegers(bits=16)', lambda g: g.uintegers(None, bits=16)),
        ('uintegers(bits="a")', lambda g: g.uintegers(3, bits='a')),
        ('uintegers(-1)', lambda g: g.uintegers(-1)),
        ('uintegers((2,-1),32)', lambda g: g.uintegers((2, -1), bits=32)),
        ('uintegers("a")', lambda g: g.uintegers('a')),
        ('uintegers(1.5)', lambda g: g.uintegers(1.5)),
        ('uintegers(2**62)', lambda g: g.uintegers(2 ** 62)),
        ('random(-1)', lambda g: g.random(-1)),
        ('random(dtype=int)', lambda g: g.random(3, dtype=int)),
        ('random(dtype=float16)', lambda g: g.random(3, dtype=np.float16)),
        ('random(dtype=nosuch)', lambda g: g.random(3, dtype='nosuch')),
        ('random("a")', lambda g: g.random('a')),
        ('random(size,out mismatch)', lambda g: g.random(size=3, out=np.empty(4))),
        ('random(float32 size,out mismatch)', lambda g: g.random(size=3, dtype='f', out=np.empty(4, 'f'))),
        ('random(float32 out double)', lambda g: g.random(dtype='f', out=np.empty(4))),
        ('random(longdouble out double)', lambda g: g.random(dtype='longdouble', out=np.empty(4))),
        ('random(longdouble size mismatch)', lambda g: g.random(2, dtype='longdouble', out=np.empty(4, np.longdouble))),
        ('standard_wishart(df<=dim)', lambda g: g.standard_wishart(0, n)),
        ('standard_wishart(-1)', lambda g: g.standard_wishart(-1, n)),
        ('standard_wishart(dim 0)', lambda g: g.standard_wishart(5, 0)),
        ('standard_wishart(dim -1)', lambda g: g.standard_wishart(5, -1)),
        ('standard_wishart("a")', lambda g: g.standard_wishart('a', 2)),
        ('standard_wishart(size -1)', lambda g: g.standard_wishart(5, 2, size=-1)),
        ('standard_wishart(size "a")', lambda g: g.standard_wishart(5, 2, size='a')),
        ('wishart(None)', lambda g: g.wishart(None, np.eye(n))),
        ('wishart(no scale)', lambda g: g.wishart(5)),
        ('wishart(df 0)', lambda g: g.wishart(0, np.eye(n))),
        ('wishart(df [5,0])', lambda g: g.wishart([5, 0], np.eye(n))),
        ('wishart(df [5,-1] stack)', lambda g: g.wishart([5, -1], np.stack([np.eye(n)] * 2))),
        ('wishart(df 1.5)', lambda g: g.wishart(1.5, np.eye(n))),
        ('wishart(df nan)', lambda g: g.wishart(float('nan'), np.eye(n))),
        ('wishart(non-square)', lambda g: g.wishart(5, np.ones((2, 3)))),
        ('wishart(1-d)', lambda g: g.wishart(5, np.ones(3))),
        ('wishart(asymmetric raise)', lambda g: g.wishart(5, np.array([[1, .5], [0, 1]]), check_valid='raise')),
        ('wishart(indefinite raise)', lambda g: g.wishart(5, np.diag([1., -1.]), check_valid='raise')),
        ('wishart(indefinite chol)', lambda g: g.wishart(5, np.diag([1., -1.]), method='cholesky', check_valid='ignore')),
        ('wishart(second indefinite chol)', lambda g: g.wishart(5, np.stack([np.eye(2), np.diag([1., -1.])]), method='cholesky', check_valid='ignore')),
        ('wishart(second indefinite raise)', lambda g: g.wishart(5, np.stack([np.eye(2), np.diag([1., -1.])]), check_valid='raise')),
        ('wishart(nan)', lambda g: g.wishart(5, nan_mat(n), check_valid='raise')),
        ('wishart(nan svd)', lambda g: g.wishart(5, nan_mat(n), method='svd', check_valid='ignore')),
        ('wishart(rank raise)', lambda g: g.wishart(5, np.ones((2, 2)), rank=3)),
        ('wishart(bad size)', lambda g: g.wishart([5, 6], np.eye(2), size=(3,))),
        ('wishart(bad size 2)', lambda g: g.wishart([5, 6, 7], np.stack([np.eye(2)] * 2))),
        ('wishart(size -1)', lambda g: g.wishart(5, np.eye(2), size=-1)),
        ('wishart(method)', lambda g: g.wishart(5, np.eye(2), method='nosuch')),
        ('wishart(check)', lambda g: g.wishart(5, np.eye(2), check_valid='nosuch')),
        ('mvn(mean 2-d cov)', lambda g: g.multivariate_normal(np.zeros((2, 3)), np.eye(2))),
        ('mvn(non-square)', lambda g: g.multivariate_normal(np.zeros(2), np.ones((2, 3)))),
        ('mvn(1-d cov)', lambda g: g.multivariate_normal(np.zeros(2), np.ones(2))),
        ('mvn(scalar)', lambda g: g.multivariate_normal(0., np.eye(1))),
        ('mvn(indefinite raise)', lambda g: g.multivariate_normal(np.zeros(2), np.diag([1., -1.]), check_valid='raise')),
        ('mvn(stack indefinite raise)', lambda g: g.multivariate_normal(np.zeros(2), np.stack([np.eye(2), np.diag([1., -1.])]), check_valid='raise')),
        ('mvn(stack indefinite cholesky)', lambda g: g.multivariate_normal(np.zeros(2), np.stack([np.eye(2), np.diag([1., -1.])]), check_valid='ignore', method='cholesky')),
        ('mvn(indefinite cholesky)', lambda g: g.multivariate_normal(np.zeros(2), np.diag([1., -1.]), size=3, check_valid='ignore', method='cholesky')),
        ('mvn(nan svd)', lambda g: g.multivariate_normal(np.zeros(n), nan_mat(n), check_valid='ignore', method='svd')),
        ('mvn(nan eigh)', lambda g: g.multivariate_normal(np.zeros(n), nan_mat(n), check_valid='ignore', method='eigh')),
        ('mvn(check)', lambda g: g.multivariate_normal(np.zeros(2), np.eye(2), check_valid='nosuch')),
        ('mvn(size -1)', lambda g: g.multivariate_normal(np.zeros(2), np.eye(2), size=-1)),
        ('mvn(size "a")', lambda g: g.multivariate_normal(np.zeros(2), np.eye(2), size='a')),
        ('mvn(incompatible size)', lambda g: g.multivariate_normal(np.zeros((3, 2)), np.eye(2), size=(2,))),
        ('mvn(incompatible stack)', lambda g: g.multivariate_normal(np.zeros((3, 2)), np.stack([np.eye(2)] * 2))),
        ('mvn(strings)', lambda g: g.multivariate_normal(['a', 'b'], np.eye(2))),
        ('cn(bad relation)', lambda g: g.complex_normal(0, 1, 2)),
        ('cn(array bad relation)', lambda g: g.complex_normal(0, 1, [0.1, 2])),
        ('cn(gamma<0)', lambda g: g.complex_normal(0, -1)),
        ('cn(array gamma<0)', lambda g: g.complex_normal(0, [1, -1, 1])),
        ('cn(gamma nan)', lambda g: g.complex_normal(0, [1, float('nan')])),
        ('cn(complex gamma)', lambda g: g.complex_normal(0, 1 + 1j)),
        ('cn(size)', lambda g: g.complex_normal([0, 1], 1, size=3)),
        ('cn(size 2)', lambda g: g.complex_normal(0, 1, 0.2, size='a')),
        ('cn(size -1)', lambda g: g.complex_normal(0, 1, 0.2, size=-1)),
        ('cn(broadcast)', lambda g: g.complex_normal([0, 1], [1, 2, 3])),
        ('cn(string)', lambda g: g.complex_normal('a')),
        ('mvcn(non-square)', lambda g: g.multivariate_complex_normal(np.zeros(2), np.ones((2, 3)))),
        ('mvcn(indefinite)', lambda g: g.multivariate_complex_normal(np.zeros(2), np.diag([1., -1.]), check_valid='raise')),
        ('mvcn(relation)', lambda g: g.multivariate_complex_normal(np.zeros(2), np.eye(2), 3 * np.eye(2), check_valid='raise')),
        ('mvcn(relation cholesky)', lambda g: g.multivariate_complex_normal(np.zeros(2), np.eye(2), 3 * np.eye(2), check_valid='ignore', method='cholesky')),
        ('mvcn(relation shape)', lambda g: g.multivariate_complex_normal(np.zeros(2), np.eye(2), np.eye(3))),
        ('mvcn(loc shape)', lambda g: g.multivariate_complex_normal(np.zeros(3), np.eye(2))),
        ('mvcn(asymmetric relation)', lambda g: g.multivariate_complex_normal(np.zeros(2), np.eye(2), np.array([[0, .5], [.1, 0]]), check_valid='raise')),
        ('mvcn(size)', lambda g: g.multivariate_complex_normal(np.zeros((3, 2)), np.eye(2), size=2)),
        ('mvcn(check)', lambda g: g.multivariate_complex_normal(np.zeros(2), np.eye(2), check_valid='nosuch')),
        ('mvcn(scalar)', lambda g: g.multivariate_complex_normal(0., np.eye(1))),
        ('generator.state = 5', lambda g: setattr(g, 'state', 5)),
        ('generator.state = {}', lambda g: setattr(g, 'state', {})),
        ('generator.state of another', lambda g: setattr(g, 'state', OTHER)),
    ]
    o = R.choice(bad_outs(R))
    C.append((f'random(out={short(o)})', lambda g: g.random(out=o)))
    return R.sample(C, 14)


OTHER = rg.Romu(3).state


def snapshot(b):
    ss = b.seed_seq if hasattr(b, 'seed_seq') else b._seed_seq
    return canon(b.state), id(ss), getattr(ss, 'n_children_spawned', None)


def attempt(t, b, tw, cfg, kind, txt, call, target=None, seen=None):
    """make one call that may be refused; judge only refusals"""
    before = snapshot(b)
    saved = b.state
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            call(target if target is not None else b)
    except (MemoryError, SystemError) as e:
        t.fail(f'{type(e).__name__}:{kind}', f'{cfg.name}.{txt}: {type(e).__name__}: {e}')
        return None
    except Exception as e:
        t.hit(f'refused:{kind}')
        t.evals += 1
        after = snapshot(b)
        if after[0] != before[0]:
            d = [x[0] for x, y in zip(before[0], after[0]) if x != y]
            t.fail(f'state-changed:{cfg.cls.__name__}:{kind}', f'{cfg.name}.{txt} raised {type(e).__name__}: {str(e)[:60]}; its state changed in {d}')
        if after[1:] != before[1:]:
            t.fail(f'seed-sequence-changed:{kind}', f'{cfg.name}.{txt} raised {type(e).__name__}: {str(e)[:60]}; the seed sequence of the generator was replaced')
        if b.lock.locked():
            t.fail(f'lock-held:{kind}', f'{cfg.name}.{txt} raised and left the lock taken')
        if t.rng.random() < .25:
            ops = ops_string(t.rng, 4)
            t.same(future(b, ops), future(tw, ops), f'future-changed:{cfg.cls.__name__}:{kind}', f'{cfg.name}: draws after the refused {txt}')
        return True
    t.hit(f'accepted:{kind}')
    return False


def resync(b, tw, cfg, seed):
    """after an accepted call: a fresh pair"""
    b, tw = cfg.make(seed), cfg.make(seed)
    return b, tw


def restart(cfg, R, t, lim):
    seed = R.getrandbits(60)
    s = R.getrandbits(60)
    bs = []
    for _ in range(2):
        b = cfg.make(seed)
        RR = random.Random(s)
        b = history(b, cfg, RR, RR.randrange(lim), allow=('draw', 'draw', 'raw', 'np', 'adv', 'state', 'jump'))
        bs.append(b)
    return bs


def mix(cfg, i):
    def run(t):
        R = t.rng
        b, tw = restart(cfg, R, t, 6)
        t.hit(f'half pending: {has_live_half(b.state)}')
        for _ in range(3):
            calls = [('seed', c) for c in seed_calls(cfg, R)] + [('move', c) for c in move_calls(cfg, R)] + [('state', c) for c in state_calls(b, cfg, R)]
            R.shuffle(calls)
            for kind, (txt, call) in calls:
                r = attempt(t, b, tw, cfg, f'{kind}', txt, call)
                if r is None:
                    return
                if not r:
                    b, tw = restart(cfg, R, t, 4)
                    # state calls were built from another state of the same generator class: still valid tests
                if R.random() < .15:
                    ops = ops_string(R, 3)
                    t.same(future(b, ops), future(tw, ops), f'future-changed:{cfg.cls.__name__}', f'{cfg.name}: draws after a series of refused calls')
        ops = ops_string(R, 60) + ['6'] * (block_words(cfg) if R.random() < .2 else 5)
        t.same(future(b, ops), future(tw, ops), f'future-changed:{cfg.cls.__name__}', f'{cfg.name}: draws after refused calls')
    return run


def sweep(cfg, part, parts):
    """every entry of the state, every kind of bad value, with the rest of the assignment different from the present state"""
    def run(t):
        R = t.rng
        b, tw = restart(cfg, R, t, 5)
        st = b.state
        n = 0
        for p in leaves(st):
            for v in [DEL] + mutants(get(st, p), R):
                n += 1
                if n % parts != part:
                    continue
                d = perturb(put(st, p, v), R, p)
                r = attempt(t, b, tw, cfg, 'state', f'state = <state with {"/".join(map(str, p))} {"deleted" if v is DEL else short(v)}>', lambda g, d=d: setattr(g, 'state', d))
                if r is None:
                    return
                if not r:
                    # the twin gets nothing: put b back exactly
                    b, tw = restart(cfg, R, t, 5)
        ops = ops_string(R, 30)
        t.same(future(b, ops), future(tw, ops), f'future-changed:{cfg.cls.__name__}:state', f'{cfg.name}: draws after refused state assignments')
        t.obs(n)
    return run


def gen(cfg, i):
    def run(t):
        R = t.rng
        b, tw = restart(cfg, R, t, 5)
        g = rg.ExtendedGenerator(b)
        for txt, call in gen_calls(R):
            r = attempt(t, b, tw, cfg, 'generator', f'ExtendedGenerator.{txt}', call, target=g)
            if r is None:
                return
            if r:
                t.hit('refused ' + txt.split('<')[0])
            else:
                t.hit('accepted ' + txt.split('<')[0])
                b, tw = restart(cfg, R, t, 3)
                g = rg.ExtendedGenerator(b)
        ops = ops_string(R, 20)
        t.same(future(b, ops), future(tw, ops), 'future-changed:generator', f'{cfg.name}: draws after refused ExtendedGenerator calls')
    return run


def spawned(cfg, i):
    """after a refused seed(), children spawned from the generator are those it would have had"""
    def run(t):
        R = t.rng
        seed = R.getrandbits(60)
        b, tw = cfg.make(seed), cfg.make(seed)
        for txt, call in seed_calls(cfg, R):
            r = attempt(t, b, tw, cfg, 'seed', txt, call)
            if r is None:
                return
            if not r:
                b, tw = cfg.make(seed), cfg.make(seed)
        if hasattr(b, 'spawn'):
            x, y = b.spawn(2), tw.spawn(2)
            for p, q in zip(x, y):
                t.same(canon(p.state), canon(q.state), f'children-changed:{cfg.cls.__name__}', f'{cfg.name}: a child spawned after refused seedings')
            t.hit('children')
    return run


def cases(ctx):
    R = random.Random(ctx.seed * 7919 + 19)
    names = list(CFGS)
    for i in range(ctx.n(5, 40)):
        for nme in names:
            yield f'mix/{nme}/{i}', mix(CFGS[nme], i)
    parts = 1
    for i in range(ctx.n(1, 6)):
        for nme in names:
            yield f'sweep/{nme}/{i}', sweep(CFGS[nme], R.randrange(parts), parts)
    for i in range(ctx.n(60, 900)):
        yield f'gen/{i}', gen(CFGS[R.choice([x for x in names if x not in WEAK])], i)
    for i in range(ctx.n(1, 8)):
        for nme in names:
            yield f'spawned/{nme}/{i}', spawned(CFGS[nme], i)
