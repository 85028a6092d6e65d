"""P03: seed(args) after any history == construct(args); equal seeds, equal streams."""
from checks.common import *
from hist import *

NOPICKLE = ('draw', 'raw', 'np', 'adv', 'jump', 'state', 'seed')


def dirty(b, R, log):
    """most histories end at an odd place: inside a block and with half a word buffered"""
    if R.random() < .7:
        n = R.randint(1, 9)
        log.append(f'draw:{n}')
        b.random_raw(n)
        if not has_half(b):
            log.append('half')
            future(b, '3')
    return b


def observe(t, cfg, used, fresh, key, what, sig):
    t.check(live(used.state) == live(fresh.state), f'{key}-state:{cfg.name}',
            lambda: f'{what}: state {diffs(used.state, fresh.state)}', sig=sig)
    ops = ops_string(t.rng, t.rng.choice([30, 120]))
    t.same(mixed(used, None, 0, ops), mixed(fresh, None, 0, ops), f'{key}-stream:{cfg.name}', what)
    t.check(live(used.state) == live(fresh.state), f'{key}-state-after:{cfg.name}',
            lambda: f'{what}, after draws: {diffs(used.state, fresh.state)}')


def diffs(a, b):
    from core import diff
    return diff(a, b)


def reseed(cfg, i):
    def run(t):
        R = t.rng
        log = []
        seed = hostile_seed(R)
        b = history(edgy(R, cfg), cfg, R, R.randint(1, 6), log, allow=NOPICKLE)
        dirty(b, R, log)
        sig = (cfg.name, tuple(x.split(':')[0] for x in log), has_half(b))
        kind = R.randrange(4)
        s = seed
        if kind == 1:
            s = np.random.SeedSequence(seed)
        elif kind == 2:
            s = np.random.SeedSequence(seed).spawn(R.randint(1, 3))[-1]
        elif kind == 3:
            s = [R.getrandbits(32) for _ in range(R.randint(1, 9))]
        t.note(f'{log} then seed({s})')
        b.seed(s, **seed_kw(cfg))
        observe(t, cfg, b, cfg.make(s), 'reseed', f'{log} then seed({s!r})', sig)
    return run


def seed_kw(cfg):
    return {'idx': cfg.kw['idx']} if 'idx' in cfg.kw else {}


def has_half(b):
    return bool(b.state.get('has_uint32', 0))


def rekey(cfg, i):
    def run(t):
        R = t.rng
        log = []
        b = history(edgy(R, cfg), cfg, R, R.randint(1, 6), log, allow=NOPICKLE)
        dirty(b, R, log)
        sig = ('key', cfg.name, tuple(x.split(':')[0] for x in log), has_half(b))
        key = key_of(cfg, R)
        ctr = hostile_int(R, cfg.ctr_bits) if cfg.ctr_bits and R.random() < .7 else None
        kw = {'counter': ctr} if ctr is not None else {}
        t.note(f'{log} then seed(key={key:#x}, counter={ctr})')
        if R.random() < .5:
            b.seed(key=key, **kw)
            observe(t, cfg, b, cfg.make_keyed(key, ctr), 'rekey', f'{log} then seed(key={key:#x},counter={ctr})', sig)
        elif ctr is not None:
            # seed and counter together
            s = R.randrange(1 << 40)
            b.seed(s, counter=ctr)
            observe(t, cfg, b, cfg.make(s, counter=ctr), 'seed-counter', f'{log} then seed({s}, counter={ctr})', sig)
        else:
            s = R.randrange(1 << 40)
            b.seed(s)
            observe(t, cfg, b, cfg.make(s), 'reseed', f'{log} then seed({s})', sig)
    return run


def equal_seeds(cfg, i):
    """equal seeds -> equal streams, whatever was constructed or seeded in between"""
    def run(t):
        R = t.rng
        s = hostile_seed(R)
        ss = np.random.SeedSequence(s)
        ops = ops_string(R, 150)
        a = cfg.make(s)
        want = mixed(a, None, 0, ops)
        others = []
        for _ in range(R.randint(1, 4)):
            c = CFGS[R.choice(list(CFGS))]
            o = c.make(R.randrange(99))
            others.append(history(o, c, R, 2, [], allow=NOPICKLE))
        b, c = cfg.make(ss), cfg.make(ss)
        others[0].random_raw(3)
        t.same(mixed(b, None, 0, ops), want, f'equal-seeds:{cfg.name}', f'seed {s} again via SeedSequence', sig=('eq', cfg.name, s))
        t.same(mixed(c, None, 0, ops), want, f'equal-seeds:{cfg.name}', f'seed {s}: second use of one SeedSequence')
        own = rg.SeedSequence(s)
        d = cfg.make(own)
        if not isinstance(own, np.random.SeedSequence):
            ok = [int(x) for x in own.generate_state(8)] == [int(x) for x in ss.generate_state(8)]
        else:
            ok = True
        if ok:
            t.same(mixed(d, None, 0, ops), want, f'own-seedseq:{cfg.name}', f'seed {s} via randomgen SeedSequence')
        # different seeds give different streams
        e = cfg.make(s + 1)
        t.check(mixed(e, None, 0, ops) != want, f'seed-ignored:{cfg.name}', f'seeds {s} and {s + 1} give the same stream')
        # unseeded generators are distinct
        u, v = cfg.make(None), cfg.make(None)
        x, y = mixed(u, None, 0, ops), mixed(v, None, 0, ops)
        t.check(x != y and x != want, f'unseeded:{cfg.name}', 'two unseeded generators deliver the same stream')
        b.seed(None)
        t.check(mixed(b, None, 0, ops) not in (x, y, want), f'unseeded:{cfg.name}', 'seed(None) repeats a stream')
        b.seed()
        t.check(mixed(b, None, 0, ops) not in (x, y, want), f'unseeded:{cfg.name}', 'seed() repeats a stream')
    return run


def inc_seed(cls, kw, bits, i):
    def run(t):
        R = t.rng
        s, inc = hostile_seed(R), hostile_int(R, bits)
        b = cls(R.randrange(99), R.choice([None, 3, 77]), **kw)
        ops = ops_string(R, R.choice([1, 5, 30]))
        mixed(b, None, 0, ops)
        dirty(b, R, [])
        if R.random() < .4:
            b = b.jumped()
        b.seed(s, inc)
        f = cls(s, inc, **kw)
        t.note(f'{cls.__name__} seed({s}, {inc})')
        t.check(live(b.state) == live(f.state), f'reseed-inc:{cls.__name__}', lambda: f'seed({s},{inc}): {diffs(b.state, f.state)}',
                sig=(cls.__name__, inc))
        ops = ops_string(R, 60)
        t.same(mixed(b, None, 0, ops), mixed(f, None, 0, ops), f'reseed-inc:{cls.__name__}', f'seed({s},{inc})')
    return run


def cases(ctx):
    for c in CFGS.values():
        for i in range(ctx.n(20, 400)):
            yield f'reseed/{c.name}/{i}', reseed(c, i)
        for i in range(ctx.n(2, 20)):
            yield f'equal/{c.name}/{i}', equal_seeds(c, i)
        if c.key_bits:
            for i in range(ctx.n(20, 400)):
                yield f'rekey/{c.name}/{i}', rekey(c, i)
    for i in range(ctx.n(300, 6000)):
        yield f'params/reseed/{i}', params(reseed, i)
    for i in range(ctx.n(60, 1000)):
        yield f'params/rekey/{i}', params(rekey, i, ROUNDS)
        yield f'params/equal/{i}', params(equal_seeds, i)
    for cls, kw, bits in ((rg.PCG64, {'variant': 'xsl-rr'}, 128), (rg.PCG64, {'variant': 'dxsm'}, 128), (rg.PCG64DXSM, {}, 128),
                          (rg.LCG128Mix, {}, 128), (rg.LCG128Mix, {'output': 'murmur3', 'post': False}, 128),
                          (rg.PCG32, {}, 64)):
        for i in range(ctx.n(10, 100)):
            yield f'inc/{cls.__name__}-{"-".join(map(str, kw.values()))}/{i}', inc_seed(cls, kw, bits, i)
