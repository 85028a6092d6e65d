"""P23: seed sequences: documented mixing, order-independent reads, disjoint spawning."""
import copy
import pickle
from checks.common import *
from randomgen import _seed_sequence as own
from randomgen import seed_sequence as pub

NPSS = np.random.SeedSequence
CLASSES = [('compiled', own.SeedSequence), ('public', pub.SeedSequence)]


def words(x, strings=True):
    """documented coercion to 32-bit words, least significant first"""
    if isinstance(x, str):
        x = int(x, 16) if x.startswith('0x') else int(x)
    if isinstance(x, (bool, int, np.integer)):
        x = int(x)
        out = [x & M32]
        x >>= 32
        while x:
            out.append(x & M32)
            x >>= 32
        return out
    return [w for v in x for w in words(v)]


class Model:
    def __init__(self, entropy, spawn_key=(), pool_size=4, spawned=0):
        self.e, self.k, self.n, self.spawned = entropy, tuple(spawn_key), pool_size, spawned
        run, key = words(entropy), words(self.k)
        if key and len(run) < pool_size:
            run = run + [0] * (pool_size - len(run))
        a = run + key
        h = [0x43b0d7e5]

        def hm(v):
            v ^= h[0]
            h[0] = h[0] * 0x931e8875 & M32
            v = v * h[0] & M32
            return v ^ v >> 16

        def mix(x, y):
            r = (0xca01f9dd * x - 0x4973f715 * y) & M32
            return r ^ r >> 16
        p = [hm(a[i] if i < len(a) else 0) for i in range(pool_size)]
        for s in range(pool_size):
            for d in range(pool_size):
                if s != d:
                    p[d] = mix(p[d], hm(p[s]))
        for s in range(pool_size, len(a)):
            for d in range(pool_size):
                p[d] = mix(p[d], hm(a[s]))
        self.pool = p

    def gen(self, n, bits=32):
        if bits == 64:
            w = self.gen(2 * n)
            return [w[2 * i] | w[2 * i + 1] << 32 for i in range(n)]
        h, out = 0x8b51f9dd, []
        for i in range(n):
            v = self.pool[i % self.n] ^ h
            h = h * 0x58f38ded & M32
            v = v * h & M32
            out.append(v ^ v >> 16)
        return out

    def left(self):
        return 2 ** 32 - 1 - self.spawned

    def spawn(self, n):
        r = [Model(self.e, self.k + (self.spawned + i,), self.n) for i in range(n)]
        self.spawned += n
        return r


def entropy(R, strings):
    if R.random() < .12:                # far more words than the pool holds
        n = R.choice([33, 60, 64, 65, 100, 129, 200, 257, 300, R.randrange(400)])
        w = [hostile_int(R, 32) for _ in range(n)]
        return R.choice([list, tuple, lambda x: np.array(x, np.uint32), lambda x: np.array(x, '>u4'), lambda x: sum(v << 32 * j for j, v in enumerate(x))])(w)
    k = R.randrange(9 if strings else 7)
    if k <= 1:
        return hostile_seed(R)
    if k == 2:
        return [hostile_int(R, R.choice([32, 64, 128])) for _ in range(R.randrange(12))]
    if k == 3:
        return np.array([hostile_int(R, 32) for _ in range(R.randrange(12))], np.uint32)
    if k == 4:
        dt, top = R.choice([('u8', 64), ('i8', 63), ('u1', 8), ('i4', 31), ('>u4', 32)])
        return np.array([hostile_int(R, 64) & ((1 << top) - 1) for _ in range(R.randrange(9))], dt)
    if k == 5:
        return R.choice([np.uint64(hostile_int(R, 64)), np.int64(hostile_int(R, 63)), np.uint8(R.randrange(256)), True, range(R.randrange(9)), (), [], [0], [0, 0], 0, tuple(hostile_int(R, 64) for _ in range(3))])
    if k == 6:
        return [[hostile_int(R, 40)], (hostile_int(R, 70), hostile_int(R, 32)), np.array([hostile_int(R, 32)], np.uint32)][:R.randint(1, 3)]
    v = hostile_seed(R)
    s = R.choice([str(v), hex(v)])
    return s if k == 7 else [s, hostile_int(R, 40), hex(hostile_int(R, 64))]


def skey(R):
    return R.choice([(), (), (0,), (R.randrange(9),), tuple(hostile_int(R, 32) for _ in range(R.randint(1, 4))), (hostile_int(R, 64),), (0, 0), (2 ** 32,), [R.randrange(5), 7]])


def reads(t, R, s, m, what, k=4):
    """reads in any order, any number of words, both widths: always the model's"""
    for _ in range(k):
        n = R.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 64, 129, 624, R.randrange(40)])
        bits = R.choice([32, 64])
        dt = R.choice([np.uint32, 'uint32', np.dtype('u4')] if bits == 32 else [np.uint64, 'uint64', np.dtype('u8')])
        r = s.generate_state(n) if bits == 32 and R.random() < .4 else s.generate_state(n, dt)
        t.check(isinstance(r, np.ndarray) and r.shape == (n,) and r.dtype == np.dtype(f'u{bits // 8}'), 'read-type', lambda: f'{what}.generate_state({n}, {dt}): {r!r:.80}')
        t.same([int(x) for x in r], m.gen(n, bits), 'words', f'{what}.generate_state({n}, {bits} bit)')
        r[:] = 0


def mixing(ci):
    name, C = CLASSES[ci]

    def mk(i):
        def run(t):
            R = t.rng
            for _ in range(6):
                e, k, p = entropy(R, name == 'compiled'), skey(R), R.choice([4, 4, 4, 5, 6, 7, 8, 16, 33])
                m = Model(copy.deepcopy(e), k, p)
                keep = repr(e)
                s = C(e, spawn_key=k, pool_size=p)
                what = f'{name} SeedSequence({keep:.80}, spawn_key={k}, pool_size={p})'
                t.same([int(x) for x in s.pool], m.pool, 'pool', what + '.pool')
                reads(t, R, s, m, what)
                t.check(repr(e) == keep, 'argument-changed', what)
                st = s.state
                t.check(set(st) == {'entropy', 'spawn_key', 'pool_size', 'n_children_spawned'} and tuple(st['spawn_key']) == tuple(k) and st['pool_size'] == p and st['n_children_spawned'] == 0, 'state', f'{what}.state = {st}')
                # NumPy's, for what NumPy accepts
                try:
                    q = NPSS(e, spawn_key=k, pool_size=p)
                except TypeError:
                    pass
                else:
                    t.same(s.generate_state(20), q.generate_state(20), 'numpy', what)
                for c in (pickle.loads(pickle.dumps(s)), copy.copy(s), copy.deepcopy(s), C(**st)):
                    reads(t, R, c, m, what + ' copied/rebuilt', 1)
                t.hit('mix', name, type(e).__name__, len(words(e)) > p, len(words(e)) == p, bool(k), len(words(k)), p)
            t.note(f'{what}: words as modelled ({[hex(x) for x in m.gen(2)]}...)')
        return run
    return mk


def tree(ci):
    name, C = CLASSES[ci]

    def mk(i):
        """random spawn/read/rebuild/pickle histories over a growing family"""
        def run(t):
            R = t.rng
            e, p = entropy(R, name == 'compiled'), R.choice([4, 4, 5, 8, 9, 16, 33, 64])
            n0 = R.choice([0, 0, 0, 3, 1000, 2 ** 16, 2 ** 31 - 40, 2 ** 31 - 3, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 200])
            s = C(e, pool_size=p, n_children_spawned=n0)
            fam = [(s, Model(e, (), p, n0), 'root')]
            keys = {}
            log = []
            for step in range(R.randint(6, 24)):
                j = R.randrange(len(fam))
                s, m, w = fam[j]
                op = R.choice(['spawn', 'spawn', 'spawn', 'read', 'read', 'rebuild', 'pickle', 'zero'])
                log.append((op, j))
                if op == 'spawn':
                    n = R.choice([1, 1, 2, 3, 7, np.int64(2)])
                    kids, mk_ = s.spawn(n), m.spawn(int(n))
                    t.check(isinstance(kids, list) and len(kids) == n, 'spawn-count', f'{w}.spawn({n}) returned {len(kids)} children')
                    for a, b in zip(kids, mk_):
                        t.check(tuple(a.spawn_key) == b.k and a.pool_size == p and a.n_children_spawned == 0, 'spawn-key', f'{w}.spawn: child key {a.spawn_key}, expected {b.k}; pool {a.pool_size}')
                        t.check(type(a) is C, 'child-type', str(type(a)))
                        t.same(a.generate_state(6), np.array(b.gen(6), np.uint32), 'child-words', f'child {b.k} of {e!r:.60}')
                        t.check(keys.setdefault(b.k, b) is b, 'child-repeated', f'child {b.k} was spawned twice')
                        if len(fam) < 40:
                            fam.append((a, b, f'child{b.k}'))
                    t.check(s.n_children_spawned == m.spawned == s.state['n_children_spawned'], 'spawn-counter', f'{w}: {s.n_children_spawned} != {m.spawned}')
                elif op == 'zero':
                    t.check(s.spawn(0) == [] and s.n_children_spawned == m.spawned, 'spawn-zero', w)
                elif op == 'read':
                    reads(t, R, s, m, w, 2)
                elif op == 'rebuild':
                    fam[j] = (C(**s.state), m, w + '*')
                else:
                    fam[j] = (R.choice([lambda x: pickle.loads(pickle.dumps(x, R.randrange(2, 6))), copy.deepcopy, copy.copy])(s), m, w + 'p')
            for s, m, w in fam:
                reads(t, R, s, m, w, 1)
                t.check(s.n_children_spawned == m.spawned, 'spawn-counter', w)
            allw = [tuple(m.gen(4)) for _, m, _ in fam]
            t.check(len(set(allw)) == len(allw), 'children-collide', f'{e!r:.60}')
            t.hit('tree', name, p, n0, tuple(o for o, _ in log))
            t.note(f'{name}, {len(fam)} sequences, history {[o for o, _ in log]}')
        return run
    return mk


BAD = ['C(-1)', 'C([-1])', 'C(1.5)', 'C([1.5])', 'C({1})', 'C(b"12")', 'C("")', 'C("abc")', 'C("-5")', 'C(["x"])', 'C(object())', 'C([None])', 'C(np.array([1.0]))', 'C([1, [2, -3]])', 'C(1, pool_size=3)', 'C(1, pool_size=0)', 'C(1, pool_size=-4)',
       'C(1, pool_size="4")', 'C(1, spawn_key=3)', 'C(1, spawn_key=(-1,))', 'C(1, spawn_key=(0.5,))', 'C(1, n_children_spawned=-1)', 'C(1).generate_state(-1)', 'C(1).generate_state("2")', 'C(1).generate_state(2, np.int64)', 'C(1).generate_state(2, "f8")',
       'C(1).generate_state(2, np.uint16)', 'C(1).generate_state(2, np.int32)', 'C(1).generate_state(2 ** 62, "u8")', 'C(1).spawn("2")', 'C(1).spawn(None)', 'C(1).spawn(-1)', 'C(np.array([1 + 1j]))', 'C(1, pool_size=2 ** 70)']


def bad(ci, i):
    name, C = CLASSES[ci]

    def run(t):
        try:
            r = eval(BAD[i], {'C': C, 'np': np})
        except (ValueError, TypeError, OverflowError, MemoryError) as e:
            t.check(True, '', '')
            t.hit('bad', name, i)
            t.note(f'{BAD[i]}: {e!r:.80}')
        else:
            t.fail(f'accepted:{name}:{i}', f'{name} {BAD[i]} returned {r!r:.100}')
    return run


def refused(i):
    """refused spawns and reads leave no trace (compiled class)"""
    def run(t):
        R = t.rng
        e = entropy(R, True)
        s, m = own.SeedSequence(e), Model(e)
        for _ in range(R.randint(1, 4)):
            n = R.randrange(1, 6)
            s.spawn(n)
            m.spawn(n)
            for f in (lambda: s.spawn(-R.randint(1, m.spawned)), lambda: s.spawn(-m.spawned - 1), lambda: s.spawn('3'), lambda: s.generate_state(3, 'i4'), lambda: s.generate_state(-2)):
                try:
                    r = f()
                except (ValueError, TypeError, OverflowError, MemoryError):
                    pass
                else:
                    t.fail('spawn-negative', f'after {m.spawned} children, an impossible request returned {r!r:.60}')
                t.check(s.n_children_spawned == m.spawned, 'spawn-counter', f'a refused request left the counter at {s.n_children_spawned} instead of {m.spawned}')
        a, b = s.spawn(2), m.spawn(2)
        t.check([tuple(x.spawn_key) for x in a] == [x.k for x in b], 'child-repeated', f'{[x.spawn_key for x in a]}')
        reads(t, R, s, m, 'after refusals')
        # the counter is 32 bits wide: children beyond it are refused, and the refusal spawns nothing
        left = R.randrange(1, 5)
        s, m = own.SeedSequence(e, n_children_spawned=2 ** 32 - 1 - left), Model(e, (), 4, 2 ** 32 - 1 - left)
        for n in (left + 1 + R.randrange(5), left, 1, 0, 9):
            try:
                kids = s.spawn(n)
            except (OverflowError, ValueError):
                t.check(n > m.left(), 'spawn-limit', f'{n} children refused with {m.left()} left')
                kids = None
            if kids is not None:
                t.check([tuple(x.spawn_key) for x in kids] == [x.k for x in m.spawn(n)], 'child-repeated', lambda: f'{[x.spawn_key for x in kids]} near the end of the counter')
            t.check(s.n_children_spawned == m.spawned, 'spawn-counter', f'spawn({n}) near the end left {s.n_children_spawned}, expected {m.spawned}')
        t.hit('refused', m.spawned)
    return run


def fresh(ci):
    name, C = CLASSES[ci]

    def mk(i):
        def run(t):
            p = [4, 4, 6, 8][i % 4]
            a = [C(pool_size=p) for _ in range(30)]
            es = [s.entropy for s in a]
            t.check(all(isinstance(x, int) and 0 <= x < 1 << 32 * p for x in es), 'fresh-range', str(es[:2]))
            t.check(len(set(es)) == 30, 'fresh-repeated', 'two sequences without entropy are equal')
            t.check(max(x.bit_length() for x in es) > 32 * p - 8, 'fresh-short', f'{max(es):#x}')
            for s in a[:4]:
                m = Model(s.entropy, (), p)
                reads(t, t.rng, s, m, f'{name} SeedSequence() entropy {s.entropy}')
                t.same(s.spawn(1)[0].generate_state(5), np.array(m.spawn(1)[0].gen(5), np.uint32), 'child-words', 'fresh')
            t.hit('fresh', name, p)
        return run
    return mk


def seedless(i):
    def run(t):
        C = (own.SeedlessSeedSequence, pub.SeedlessSeedSequence)[i]
        s = C()
        try:
            s.generate_state(3)
        except NotImplementedError:
            pass
        else:
            t.fail('seedless', 'generated words')
        t.check([x is s for x in s.spawn(3)] == [True] * 3 and s.spawn(0) == [], 'seedless', 'spawn')
        I, J = (own, pub)[i].ISeedSequence, (own, pub)[i].ISpawnableSeedSequence
        SS = (own, pub)[i].SeedSequence
        t.check(issubclass(C, J) and issubclass(SS, J) and issubclass(SS, I) and isinstance(s, I), 'registered', 'abstract bases')
        t.hit('seedless', i)
    return run


def gens(i):
    """generators seeded from parents and children: as if from the model's words"""
    names = sorted({c.cls.__name__ for c in CFGS.values()})

    def run(t):
        R = t.rng

        class Replay(pub.ISeedSequence):
            def __init__(self, m):
                self.m = m

            def generate_state(self, n, dtype=np.uint32):
                return np.array(self.m.gen(n, 8 * np.dtype(dtype).itemsize), dtype)
        cn = names[i % len(names)]
        C = getattr(rg, cn)
        e = entropy(R, False)
        s, m = pub.SeedSequence(e), Model(e)
        s.spawn(R.randrange(3))
        m.spawned = s.n_children_spawned
        for a, b in [(s, m)] + list(zip(s.spawn(2), m.spawn(2))):
            try:
                g, h = C(a), C(Replay(b))
            except (TypeError, ValueError, RuntimeError) as ex:
                t.note(f'{cn} takes no seed sequence: {ex}')
                return
            if cn == 'RDRAND':
                return
            t.same(g.random_raw(12), h.random_raw(12), 'generator-seed', f'{cn} from SeedSequence({e!r:.50}, spawn_key={b.k})')
            q = g.seed_seq
            t.check(q is a, 'seed-seq', f'{cn}.seed_seq is not the sequence given')
            # the generator's own spawning continues the same counter
            kids = q.spawn(1)
            t.check(tuple(kids[0].spawn_key) == b.spawn(1)[0].k, 'spawn-key', f'{cn}.seed_seq.spawn')
            t.hit('gen', cn, len(b.k))
        n = len({tuple(C(x).random_raw(3).tolist()) for x in s.spawn(6)})
        t.check(n == 6, 'children-collide', f'{cn}: six children gave {n} different streams')
    return run


def cases(ctx):
    for ci, (name, _) in enumerate(CLASSES):
        for i in range(ctx.n(120 if ci == 0 else 40, 2000)):
            yield f'mixing-{name}/{i}', mixing(ci)(i)
        for i in range(ctx.n(80 if ci == 0 else 30, 1500)):
            yield f'tree-{name}/{i}', tree(ci)(i)
        for i in range(len(BAD)):
            yield f'bad-{name}/{i}', bad(ci, i)
        for i in range(8):
            yield f'fresh-{name}/{i}', fresh(ci)(i)
    for i in range(ctx.n(20, 300)):
        yield f'refused/{i}', refused(i)
    for i in range(2):
        yield f'seedless/{i}', seedless(i)
    for i in range(ctx.n(60, 600)):
        yield f'gens/{i}', gens(i)
