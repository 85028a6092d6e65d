"""P02: every output word equals the published algorithm's, for every key, counter, seed and state."""
from checks.common import *


def seeded(cfg, i):
    def run(t):
        R = t.rng
        seed = hostile_seed(R)
        b = cfg.make(seed)
        mdl = cfg.model(seed) if cfg._model else cfg.load(b.state)
        ops = ops_string(R, 2 * block_words(cfg) + R.randrange(200))
        t.note(f"seed={seed} ops={''.join(ops[:20])}...")
        t.same(mixed(b, None, 0, ops), mixed_model(mdl, ops), f'stream:{cfg.name}', f'seed {seed} mixed draws',
               sig=(cfg.name, seed))
    return run


def keyed(cfg, i):
    def run(t):
        R = t.rng
        key = key_of(cfg, R)
        ctr = hostile_int(R, cfg.ctr_bits) if cfg.ctr_bits else None
        t.note(f'key={key:#x} counter={ctr}')
        b = cfg.make_keyed(key, ctr)
        mdl = cfg.keyed(key, ctr or 0)
        ops = ops_string(R, R.choice([40, 150]))
        t.same(mixed(b, None, 0, ops), mixed_model(mdl, ops), f'keyed:{cfg.name}', f'key {key:#x} counter {ctr}',
               sig=(cfg.name, key, ctr))
        # the same key through seed() on a used instance
        b = cfg.make(1)
        mixed(b, None, 0, ops_string(R, R.randrange(40)))
        kw = {'counter': ctr} if ctr is not None else {}
        b.seed(key=key, **kw)
        mdl = cfg.keyed(key, ctr or 0)
        ops = ops_string(R, 60)
        t.same(mixed(b, None, 0, ops), mixed_model(mdl, ops), f'keyed-seed:{cfg.name}', f'seed(key={key:#x}, counter={ctr})')
    return run


def near_wrap(cfg, bit):
    """streams that cross a counter carry"""
    def run(t):
        R = t.rng
        for back in (1, 2, 3, 5, 7, 40):
            key = key_of(cfg, R)
            ctr = ((1 << bit) - back) % (1 << cfg.ctr_bits)
            b, mdl = cfg.make_keyed(key, ctr), cfg.keyed(key, ctr)
            t.same(nats(b, cfg, 120), [mdl.nat() for _ in range(120)],
                   f'wrap:{cfg.name}', f'key {key:#x} counter 2**{bit}-{back}', sig=(cfg.name, bit, back))
        t.note(f'counter 2**{bit}-1..40, 120 words each')
    return run


def state(cfg, i):
    def run(t):
        R = t.rng
        b = cfg.make(R.randrange(100))
        st = mutate_state(R, b.state)
        b.state = st
        mdl = cfg.load(st)
        ops = ops_string(R, 30 + R.choice([0, block_words(cfg) * 2]))
        if cfg.W == 32 or cfg.name == 'DSFMT' or 'has_uint32' not in st:
            pass
        t.note(f'state={str(st)[:200]}')
        t.same(mixed(b, None, 0, ops), mixed_model(mdl, ops), f'state:{cfg.name}', f'from state {str(st)[:300]}',
               sig=(cfg.name, i))
    return run


def longrun(cfg, n):
    def run(t):
        seed = t.rng.getrandbits(60)
        b = cfg.make(seed)
        mdl = cfg.model(seed) if cfg._model else cfg.load(b.state)
        got = b.random_raw(n).tolist()
        want = [mdl.raw() for _ in range(n)]
        t.note(f'{n} raw words from seed {seed}')
        t.same(got, want, f'long:{cfg.name}', f'seed {seed}, {n} raw words', sig=(cfg.name, 'long', n))
    return run


def numpyref(name, ours, theirs, i):
    def run(t):
        seed = hostile_seed(t.rng)
        kw = {} if name == 'PCG64' else {'numpy_seed': True}
        a = ours(seed, numpy_seed=True, inc=None) if name == 'PCG64' else ours(seed, **kw)
        b = theirs(seed)
        ops = ops_string(t.rng, 1500)
        t.note(f'seed={seed}')
        t.same(mixed(a, None, 0, ops), mixed(b, None, 0, ops), f'numpy:{name}', f'seed {seed} against numpy', sig=(name, seed))
    return run


def cases(ctx):
    import models_selftest
    yield 'selftest/models', lambda t: (models_selftest.run(t))
    for c in CFGS.values():
        for i in range(ctx.n(8, 120)):
            yield f'seeded/{c.name}/{i}', seeded(c, i)
        if c.keyed:
            for i in range(ctx.n(24, 600)):
                yield f'keyed/{c.name}/{i}', keyed(c, i)
            if c.ctr_bits:
                for bit in sorted({8, 16, 31, 32, 33, 36, 48, 63, 64, 65, 68, 95, 96, 97, 127, 128, 160, 192, 224, 256}):
                    if bit <= c.ctr_bits:
                        yield f'wrap/{c.name}/{bit}', near_wrap(c, bit)
        if c.has_load:
            for i in range(ctx.n(10, 200)):
                yield f'state/{c.name}/{i}', state(c, i)
        yield f'long/{c.name}', longrun(c, ctx.n(6000, 150000))
    for i in range(ctx.n(300, 6000)):
        yield f'params/seeded/{i}', params(seeded, i)
        yield f'params/keyed/{i}', params(keyed, i, ROUNDS)
        yield f'params/state/{i}', params(state, i, STATEFUL)
    for n, o, th in numpy_equal_cases():
        for i in range(ctx.n(8, 60)):
            yield f'numpy/{n}/{i}', numpyref(n, o, th, i)
