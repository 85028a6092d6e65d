"""P11: instances are isolated from each other and outlive what they were built from."""
import gc
import threading
import weakref
import warnings
from checks.common import *
from hist import *
import tsan

NAMES = [n for n in CFGS if n not in WEAK]
FAMS = {}
for _n in CFGS:
    FAMS.setdefault(CFGS[_n].cls.__name__, []).append(_n)


def scribble(x):
    """overwrite everything mutable that was handed out or passed in"""
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, np.ndarray, list)):
                scribble(x[k])
            else:
                x[k] = None
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = np.array(0x5A).astype(x.dtype)
    elif isinstance(x, list):
        x[:] = [0] * len(x)


def out_canon(x):
    return canon(x) if not isinstance(x, np.ndarray) else ('arr', str(x.dtype), x.shape, x.tobytes())


OPS = ['draw', 'draw', 'raw', 'np', 'np2', 'ext', 'adv', 'jump', 'state', 'setstate', 'seed', 'seedarr', 'spawn', 'iface', 'bad', 'look', 'reinit', 'lock']


def act(b, cfg, opseed, ownspawn):
    """one deterministic operation on one generator; returns what it delivered"""
    R = random.Random(opseed)
    op = R.choice(OPS)
    if op == 'draw':
        return op, future(b, ops_string(R, R.choice([1, 2, 3, 7, 30])))
    if op == 'raw':
        a = b.random_raw(R.choice([1, 5, 33, 257, (2, 3)]))
        c = b.random_raw(4)
        r = out_canon(a), out_canon(c)
        scribble(a)
        return op, (r, out_canon(c))
    if op == 'np':
        g = np.random.Generator(b)
        return op, out_canon(g.integers(0, 100, size=R.randrange(1, 9), dtype=R.choice([np.uint8, np.uint16, np.int32, np.int64])))
    if op == 'np2':
        g = np.random.Generator(b)
        return op, out_canon(g.random(R.randrange(1, 9), dtype=R.choice([np.float32, np.float64])))
    if op == 'ext':
        g = rg.ExtendedGenerator(b)
        k = R.randrange(4)
        if k == 0:
            return op, out_canon(g.uintegers(R.randrange(1, 6), bits=R.choice([32, 64])))
        if k == 1:
            return op, out_canon(g.random(R.randrange(1, 6), dtype=R.choice(['d', 'f', 'longdouble'])).astype(np.float64))
        if cfg.name in WEAK:
            return op, None
        if k == 2:
            m, c = np.zeros(2), np.eye(2)
            x = g.multivariate_normal(m, c, size=2)
            scribble(m)
            scribble(c)
            return op, out_canon(x)
        return op, out_canon(g.complex_normal(0, 1, .3, size=2))
    if op == 'adv':
        if cfg.advance:
            advance(b, cfg, R.getrandbits(R.choice([3, 12, cfg.advance - 1])))
        return op, None
    if op == 'jump':
        if hasattr(b, 'jump') and cfg.cls not in (rg.MT19937, rg.SFMT, rg.DSFMT):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    b.jump()
                except NotImplementedError:
                    pass
        return op, None
    if op == 'state':
        st = b.state
        b.state = st
        keep = canon(st)
        future(b, ['6'] * 3 + ['3'])
        r = canon(st) == keep                      # a handed-out state does not follow the generator
        scribble(st)                               # nor the generator the handed-out (or assigned) state
        return op, (r, keep)
    if op == 'setstate':
        o = cfg.make(R.getrandbits(40))
        future(o, ['6', '3', '3', '3'])
        st = o.state
        b.state = st
        scribble(st)
        future(o, ['6'] * 9)
        return op, future(b, ['6', '3', 'd'])
    if op == 'seed':
        b.seed(R.getrandbits(70))
        return op, None
    if op == 'seedarr':
        a = np.array([R.getrandbits(31) for _ in range(3)], np.uint32)
        kw = {}
        if cfg.key_bits and cfg.cls in (rg.Philox, rg.ThreeFry, rg.AESCounter, rg.SPECK128, rg.ChaCha, rg.HC128):
            a = np.array([R.getrandbits(64) for _ in range(cfg.key_bits // 64)], np.uint64)
            if cfg.key_bits >= 64:
                b.seed(key=a)
                scribble(a)
                return op, future(b, ['6', '3', 'd'])
        # an array seed belongs to the seed sequence (numpy); the caller's array is left alone here
        b.seed(a, **kw)
        return op, future(b, ['6', '3', 'd'])
    if op == 'spawn':
        if ownspawn:
            try:
                return op, [canon(c.state) for c in b.spawn(R.randint(1, 2))]
            except (TypeError, AttributeError):
                return op, None
        return op, None
    if op == 'iface':
        i = R.choice([lambda: b.ctypes, lambda: b.cffi])()
        return op, [int(i.next_uint64(i.state)), int(i.next_uint32(i.state)), float(i.next_double(i.state))]
    if op == 'bad':
        for call in (lambda: b.seed('x'), lambda: setattr(b, 'state', {}), lambda: b.random_raw(-1)):
            try:
                call()
            except Exception:
                pass
        return op, None
    if op == 'look':
        return op, live(b.state)
    if op == 'reinit':
        st = b.state
        o = type(b).__new__(type(b))               # another, half-built object of the same class comes and goes
        del o
        cfg.make(R.getrandbits(20)).random_raw(R.choice([1, 700]))
        return op, live(b.state) == live(st)
    if op == 'lock':
        with b.lock:
            return op, b.lock.locked()


def derive(b, kind, R):
    if kind == 'copy':
        return copy.copy(b)
    if kind == 'deepcopy':
        return copy.deepcopy(b)
    if kind == 'pickle':
        return pickle.loads(pickle.dumps(b))
    if kind == 'jumped':
        return b.jumped()
    if kind == 'spawned':
        return b.spawn(2)[1]
    if kind == 'gen-copy':
        return copy.deepcopy(np.random.Generator(b)).bit_generator
    if kind == 'ext-copy':
        return copy.copy(rg.ExtendedGenerator(b)).bit_generator
    if kind == 'ext-pickle':
        return pickle.loads(pickle.dumps(rg.ExtendedGenerator(b))).bit_generator


class Obj:
    """an instance in the crowd, its recipe and what it delivered"""

    def __init__(self, cfg, seed, parent=None, upto=0, kind=None):
        self.cfg, self.seed, self.parent, self.upto, self.kind = cfg, seed, parent, upto, kind
        self.prog, self.got = [], []
        # shallow copies share the seed sequence (as numpy's do); pickling an ExtendedGenerator does not carry it
        self.spawnable = parent is None or parent.spawnable and kind not in ('copy', 'gen-copy', 'ext-pickle', 'ext-copy')

    def rebuild(self):
        """the same instance with nobody else around"""
        if self.parent is None:
            return self.cfg.make(self.seed)
        b = self.parent.rebuild()
        for p in self.parent.prog[:self.upto]:
            self.parent.do(b, p)
        return derive(b, self.kind, None)

    def do(self, b, p):
        if p[0] == 'derive':
            derive(b, p[1], None)
            return None
        return act(b, self.cfg, p[1], p[2])


def kinds(cfg, b):
    k = ['copy', 'deepcopy', 'pickle', 'gen-copy', 'ext-pickle', 'ext-copy']
    if hasattr(b, 'jumped') and cfg.cls not in (rg.MT19937, rg.SFMT, rg.DSFMT):
        k += ['jumped', 'jumped']
    return k


def crowd(i, same, steps):
    def run(t):
        R = t.rng
        fam = R.choice(list(FAMS))
        pool = FAMS[fam] if same else list(CFGS)
        objs, alive = [], []
        for _ in range(R.randint(2, 5)):
            o = Obj(CFGS[R.choice(pool)], R.getrandbits(50))
            o.b = o.cfg.make(o.seed)
            objs.append(o)
            alive.append(o)
        for _ in range(steps):
            z = R.random()
            if z < .78 or len(alive) < 2:
                o = R.choice(alive)
                p = ('act', R.getrandbits(48), o.spawnable)
                o.prog.append(p)
                o.got.append(o.do(o.b, p))
                t.hit(o.got[-1][0], o.cfg.cls.__name__)
            elif z < .9 and len(alive) < 9:
                o = R.choice(alive)
                if R.random() < .3:
                    c = Obj(CFGS[R.choice(pool)], R.getrandbits(50))
                    c.b = c.cfg.make(c.seed)
                else:
                    k = R.choice(kinds(o.cfg, o.b))
                    if k in ('copy', 'gen-copy'):
                        o.spawnable = False        # shallow copies share the seed sequence, as numpy's do
                    c = Obj(o.cfg, o.seed, o, len(o.prog), k)
                    o.prog.append(('derive', k))
                    o.got.append(None)
                    c.b = derive(o.b, k, R)
                    t.hit('derive', k, o.cfg.cls.__name__)
                objs.append(c)
                alive.append(c)
            else:
                o = alive.pop(R.randrange(len(alive)))
                o.b = None
                if R.random() < .3:
                    gc.collect()
        for o in alive:
            o.prog.append(('act', R.getrandbits(48), o.spawnable))
            o.got.append(o.do(o.b, o.prog[-1]))
        for o in objs:
            o.b = None
        alive.clear()
        for o in objs:
            if not o.prog:
                continue
            b = o.rebuild()
            for j, (p, want) in enumerate(zip(o.prog, o.got)):
                got = o.do(b, p)
                t.obs()
                t.evals += 1
                if got != want:
                    t.fail(f'interference:{o.cfg.cls.__name__}:{got[0] if got else "derive"}',
                           f'{o.cfg.name}({o.seed}){" via " + o.kind if o.kind else ""}: operation {j} ({got and got[0]}) delivered {short(want)} among {len(objs)} other generators '
                           f'but {short(got)} alone')
    return run


def offspring(cfg, i):
    """spawning from one generator changes neither the children of its copies and jumped copies nor of its source"""
    def run(t):
        R = t.rng
        slow = cfg.cls in (rg.MT19937, rg.SFMT, rg.DSFMT)
        how = ['deepcopy', 'pickle'] + (['jumped'] * (1 if slow else 3) if hasattr(cfg.cls, 'jumped') and cfg.cls is not rg.PCG64DXSM else [])
        e, key = R.getrandbits(R.choice([8, 64, 128])), tuple(R.getrandbits(20) for _ in range(R.choice([0, 0, 1, 2])))
        b = cfg.make(np.random.SeedSequence(e, spawn_key=key))
        live_, jumps = [[b, e, key, 0, 'made']], 0
        log = []
        for _ in range(R.randint(6, 16)):
            z = R.random()
            x = R.choice(live_)
            if z < .3 and len(live_) < 6:
                k = R.choice(how)
                if k == 'jumped' and slow and (jumps or R.random() < .7):
                    k = 'pickle'
                jumps += k == 'jumped'
                c = derive(x[0], k, R)
                log.append((live_.index(x), k))
                t.check(c.seed_seq is not x[0].seed_seq, f'seedseq-shared:{cfg.cls.__name__}:{k}', f'{cfg.name}: the {k} copy spawns from the seed sequence of its source')
                live_.append([c, x[1], x[2], c.seed_seq.n_children_spawned, k])
                t.check(c.seed_seq.entropy == x[1] and tuple(c.seed_seq.spawn_key) == x[2] and c.seed_seq.n_children_spawned == x[3],
                        f'seedseq-lost:{cfg.cls.__name__}:{k}', lambda: f'{cfg.name} {log}: {k} of {x[1:]} carries {c.seed_seq}')
            elif z < .4:
                x[0].random_raw(R.randint(1, 5))
            elif z < .5:
                s = R.getrandbits(40)
                x[0].seed(s, **({'idx': cfg.kw['idx']} if 'idx' in cfg.kw else {}))
                x[1:4] = [s, (), 0]
                log.append((live_.index(x), 'seed'))
            else:
                n = R.randint(1, 3)
                via = R.randrange(3)
                kids = x[0].spawn(n) if via == 0 else x[0].seed_seq.spawn(n) if via == 1 else [g.bit_generator for g in np.random.Generator(x[0]).spawn(n)]
                seqs = [k.seed_seq if via != 1 else k for k in kids]
                log.append((live_.index(x), f'spawn {n}'))
                got = [(k.entropy, tuple(k.spawn_key)) for k in seqs]
                want = [(x[1], x[2] + (x[3] + j,)) for j in range(n)]
                x[3] += n
                t.check(got == want, f'offspring:{cfg.cls.__name__}:{x[4]}', lambda: f'{cfg.name} {log}: the children of generator {live_.index(x)} ({x[4]}) are {got}, {want} expected',
                        sig=('offspring', cfg.name, x[4], via, n))
        t.note(f'{cfg.name} {log}')
    return run


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + '...'


# a seed sequence shared by copies is numpy's; spawning is judged only where the recipe says who owns it -----------------
class Churn:
    """allocate and drop objects of the same size classes, so that freed memory is reused"""

    def __init__(self, R):
        self.R = R

    def __call__(self, cfg):
        gc.collect()
        xs = [cfg.make(self.R.getrandbits(30)) for _ in range(6)]
        for x in xs:
            x.random_raw(3)
        xs += [np.full(n, 0xABCDEF, np.uint64) for n in (8, 40, 79, 320, 624, 700)] + [bytearray(k) for k in (64, 200, 800, 3000, 5200)]
        return xs


def lifetime(cfg, i):
    """hold the generator only through something built from it"""
    def run(t):
        R = t.rng
        churn = Churn(R)
        seed = R.getrandbits(60)
        ops = ops_string(R, R.randrange(12))

        def build():
            b = cfg.make(seed)
            future(b, ops)
            return b

        def holders():
            yield 'Generator', lambda b: np.random.Generator(b), lambda h: h.integers(0, 2 ** 64, dtype=np.uint64, size=5)
            yield 'Generator.method', lambda b: np.random.Generator(b).random, lambda h: h(5)
            yield 'ExtendedGenerator', lambda b: rg.ExtendedGenerator(b), lambda h: h.uintegers(5)
            yield 'ExtendedGenerator.method', lambda b: rg.ExtendedGenerator(b).random, lambda h: h(5, dtype='f')
            yield 'ExtendedGenerator.property', lambda b: rg.ExtendedGenerator(b).bit_generator, lambda h: h.random_raw(5)
            yield 'Generator.property', lambda b: np.random.Generator(b).bit_generator, lambda h: h.random_raw(5)
            yield 'Generator of Generator', lambda b: np.random.Generator(np.random.Generator(b).bit_generator), lambda h: h.random(5)
            yield 'RandomState', lambda b: np.random.RandomState(b), lambda h: h.random_sample(5)
            yield 'method', lambda b: b.random_raw, lambda h: h(5)
            yield 'interface with Generator', lambda b: (np.random.Generator(b), b.ctypes), lambda h: [int(h[1].next_uint64(h[1].state)), int(h[1].next_uint32(h[1].state))]
            yield 'cffi with ExtendedGenerator', lambda b: (rg.ExtendedGenerator(b), b.cffi), lambda h: [int(h[1].next_uint64(h[1].state)), int(h[1].next_uint32(h[1].state))]
            yield 'cycle', cyc, lambda h: h.random(5)
            yield 'mvn', lambda b: rg.ExtendedGenerator(b), lambda h: [int(x) for x in np.random.Generator(h.bit_generator).integers(0, 100, 4)]
            yield 'pickled Generator', lambda b: pickle.loads(pickle.dumps(np.random.Generator(b))), lambda h: h.random(5)
            yield 'copied ExtendedGenerator', lambda b: copy.copy(rg.ExtendedGenerator(b)), lambda h: h.random(5)

        def cyc(b):
            g = rg.ExtendedGenerator(b)
            box = [b, g]
            box.append(box)
            return g
        for name, make, use in holders():
            b = build()
            h = make(b)
            tw = build()
            htw = make(tw)
            want = out_canon(np.asarray(use(htw)))
            want2 = out_canon(np.asarray(use(htw)))
            del b
            junk = churn(cfg)
            got = out_canon(np.asarray(use(h)))
            del junk
            t.same(got, want, f'lifetime:{name.split(".")[0]}', f'{cfg.name} held only by {name}')
            junk = churn(cfg)
            t.same(out_canon(np.asarray(use(h))), want2, f'lifetime:{name.split(".")[0]}', f'{cfg.name} held only by {name}, second use')
            t.hit('holder', name, cfg.cls.__name__)
            del h, htw, tw, junk
        # what a generator handed out survives it, unchanged
        b = build()
        st, arr, ss = b.state, b.random_raw(9), b.seed_seq if hasattr(b, 'seed_seq') else b._seed_seq
        jumped = b.jumped() if 'jumped' in kinds(cfg, b) else None
        k = canon(st), out_canon(arr)
        jk = None if jumped is None else future(copy.deepcopy(jumped), ['6', '3', 'd', '6'])
        words = tuple(ss.generate_state(4).tolist())
        lock = b.lock
        b.random_raw(900)
        del b
        junk = churn(cfg)
        t.same((canon(st), out_canon(arr)), k, 'handed-out-changed', f'{cfg.name}: state dictionary / drawn array after the generator went on and was dropped')
        t.same(tuple(ss.generate_state(4).tolist()), words, 'seed-sequence-changed', f'{cfg.name}: its seed sequence after the generator was dropped')
        if jumped is not None:
            t.same(future(jumped, ['6', '3', 'd', '6']), jk, 'lifetime:jumped', f'{cfg.name}: jumped copy after the original was dropped')
        with lock:
            pass
        c = cfg.make(5)
        c.state = st
        t.same(canon(c.state), k[0], 'handed-out-state-unusable', f'{cfg.name}: restoring the state of a dropped generator')
        del junk
    return run


def aliasing(cfg, i):
    """arrays passed in or handed out are not views of internal state; reading and holding views is harmless"""
    def run(t):
        R = t.rng
        b, tw = cfg.make(i + 1), cfg.make(i + 1)
        ops = ops_string(R, R.randrange(20))
        future(b, ops)
        future(tw, ops)
        held = []
        for k in range(6):
            z = R.randrange(5)
            if z == 0:
                st = b.state
                scribble(st)
                held.append(st)
            elif z == 1:
                st = tw.state
                b.state = st
                scribble(st)
            elif z == 2:
                st = b.state
                q = pickle.loads(pickle.dumps(b))
                q.random_raw(R.choice([3, 700]))
                q.state = st
                scribble(st)
                q.seed(3)
                held.append(q)
            elif z == 3:
                c = copy.deepcopy(b)
                c.state = b.state
                future(c, ops_string(R, 9))
                held.append(c)
            else:
                for gg in (np.random.Generator(b), rg.ExtendedGenerator(b)):
                    if hasattr(gg, 'state'):
                        with warnings.catch_warnings():
                            warnings.simplefilter('ignore')
                            scribble(gg.state)
                held.append(b.ctypes)
            t.hit('alias', z, cfg.cls.__name__)
            ops = ops_string(R, 5)
            t.same(future(b, ops), future(tw, ops), f'aliased:{cfg.cls.__name__}', f'{cfg.name}: draws after scribbling over handed-out or assigned arrays (kind {z})')
        # keys and counters given as arrays
        if cfg.key_bits >= 64 and cfg.cls in (rg.Philox, rg.ThreeFry, rg.AESCounter, rg.SPECK128, rg.ChaCha, rg.HC128):
            key = np.array([R.getrandbits(64) for _ in range(cfg.key_bits // 64)], np.uint64)
            kk = key.copy()
            x, y = type(b)(key=key, **cfg.kw), type(b)(key=kk.copy(), **cfg.kw)
            scribble(key)
            t.same(future(x, ['6', '3', 'd'] * 20), future(y, ['6', '3', 'd'] * 20), f'aliased:{cfg.cls.__name__}:key', f'{cfg.name}: draws after the key array was overwritten')
            t.check((kk == kk).all(), 'key-array-changed', '')
            y2 = type(b)(key=kk, **cfg.kw)
            k3 = kk.copy()
            future(y2, ['6'] * 70)
            t.same(kk.tolist(), k3.tolist(), f'argument-changed:{cfg.cls.__name__}', f'{cfg.name}: the key array passed in')
            t.hit('key array', cfg.cls.__name__)
    return run


def collected(cfg, i):
    """a generator that nobody refers to is destroyed (also from a cycle), without touching the others"""
    def run(t):
        R = t.rng

        class Sub(cfg.cls):
            pass
        by = [cfg.make(s) for s in range(3)]
        want = [future(cfg.make(s), ['6', '3'] * 40) for s in range(3)]
        dead = []
        for k in range(8):
            x = Sub(R.getrandbits(20), **cfg.kw)
            x.me = x
            x.g = rg.ExtendedGenerator(x)
            x.random_raw(R.choice([1, 9, 800]))
            weakref.finalize(x, dead.append, k)
            if R.random() < .5:
                x.i = x.ctypes
        del x
        gc.collect()
        t.check(len(dead) == 8, f'never-destroyed:{cfg.cls.__name__}', f'{cfg.name}: {8 - len(dead)} of 8 unreachable generators in reference cycles were not destroyed')
        for s in range(3):
            t.same(future(by[s], ['6', '3'] * 40), want[s], f'interference:{cfg.cls.__name__}:destroy', f'{cfg.name}: draws of a generator after others were destroyed')
        t.hit('collected', cfg.cls.__name__)
    return run


def threads(i):
    """the last reference goes away in another thread while a draw is running"""
    def run(t):
        R = t.rng
        cfg = CFGS[R.choice(NAMES)]
        seed = R.getrandbits(40)
        want = out_canon(cfg.make(seed).random_raw(40000))
        out = []
        b = cfg.make(seed)
        f = b.random_raw
        th = threading.Thread(target=lambda box: out.append(box.pop()(40000)), args=([f],))
        th.start()
        del b, f
        gc.collect()
        junk = Churn(R)(cfg)
        th.join()
        t.same(out_canon(out[0]), want, 'lifetime:thread', f'{cfg.name}: 40000 words drawn while the last other reference was dropped')
        t.hit('thread', cfg.cls.__name__)
        del junk
    return run


def cases(ctx):
    R = random.Random(ctx.seed * 7919 + 11)
    for i in range(ctx.n(250, 4000)):
        yield f'crowd/same/{i}', crowd(i, True, R.choice([20, 40, 80]))
    for i in range(ctx.n(100, 2000)):
        yield f'crowd/mixed/{i}', crowd(i, False, R.choice([20, 40, 80]))
    for i in range(ctx.n(1, 12)):
        for n in CFGS:
            yield f'lifetime/{n}/{i}', lifetime(CFGS[n], i)
            yield f'aliasing/{n}/{i}', aliasing(CFGS[n], i)
            yield f'collected/{n}/{i}', collected(CFGS[n], i)
    for i in range(ctx.n(4, 60)):
        for n in CFGS:
            yield f'offspring/{n}/{i}', offspring(CFGS[n], i)
    for i in range(ctx.n(40, 600)):
        yield f'threads/{i}', threads(i)
    names = list(CFGS)
    for i in range(ctx.n(1, 25)):
        for k in range(0, len(names), 3):
            yield f'race/{names[k]}/{i}', tsan.family('own', names[k:k + 3], i, ctx.n(60, 150))
