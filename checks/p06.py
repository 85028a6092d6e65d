"""P06: advance(n) == n draws; additive, modular, invertible."""
import copy
from checks.common import *
from hist import *
from skip import mskip, period_bits
from core import diff

ADV = [c for c in CFGS.values() if c.advance]
PREFETCH = (rg.AESCounter, rg.SPECK128)     # their prefetched blocks make equal positions differ in state
R123 = (rg.Philox, rg.ThreeFry)


def fresh(R, cfg):
    """(bit generator, model) at the same random point, model carries the half word"""
    if cfg.keyed and R.random() < .7:
        key = key_of(cfg, R)
        ctr = hostile_int(R, cfg.ctr_bits)
        return cfg.make_keyed(key, ctr), cfg.keyed(key, ctr), f'key={key:#x},counter={ctr:#x}'
    seed = hostile_seed(R)
    b = cfg.make(seed)
    if cfg._model:
        return b, cfg.model(seed), f'seed={seed}'
    return b, cfg.load(b.state), f'seed={seed}'


def dist(R, cfg):
    p = period_bits(cfg)
    k = R.randrange(9)
    if k == 8:          # around whole numbers of periods
        return (R.choice([1, 2, 3, 5, 7, R.getrandbits(20), R.getrandbits(90)]) << p) * R.choice([1, 1, -1]) + R.choice([-1, 1]) * R.randrange(1, 99)
    if k == 0:
        return R.randrange(1, 40)
    if k == 1:
        return -R.randrange(1, 40)
    if k == 2:
        return (1 << p) + R.randint(-9, 9)
    if k == 3:
        return -hostile_int(R, p)
    if k == 4:
        return hostile_int(R, p)
    if k == 5:
        return hostile_int(R, p) * R.choice([1, 3, 1 << 64]) + R.randrange(5)
    if k == 6:
        return (1 << R.randrange(p + 3)) * R.choice([1, -1]) + R.randint(-2, 2)
    return R.getrandbits(p)


def ndist(R, cfg):
    d = dist(R, cfg)
    if cfg.cls is rg.Squares:
        d %= 1 << 64
    return d


def adv(b, cfg, n, R=None):
    r = b.advance(n, counter=False) if cfg.cls in R123 else b.advance(n)
    return r


def model(cfg, i):
    def run(t):
        R = t.rng
        b, mdl, how = fresh(R, cfg)
        log = [how]
        p = 1 << period_bits(cfg)
        for _ in range(R.randint(2, 7)):
            ops = ops_string(R, R.choice([0, 1, 1, 2, 3, 4, 7, 30]))
            log.append('draw ' + ''.join(ops))
            t.same(mixed(b, None, 0, ops), mixed_model(mdl, ops), f'advance-model:{cfg.name}', lambda_(log))
            n = ndist(R, cfg)
            if n % p == 0:
                n += 1
            if cfg.cls in R123 and R.random() < .25 and n % (1 << (cfg.kw['number'] * cfg.kw['width'])):
                log.append(f'advance({n},counter=True)')
                r = b.advance(n, counter=True)
                mdl.q, mdl.ctr, mdl.has = [], (mdl.ctr + n) % mdl.mod, 0
            else:
                half = bool(b.state.get('has_uint32', 0))
                log.append(f'advance({n})')
                r = adv(b, cfg, n)
                mskip(mdl, n)
                t.hit('adv', cfg.name, half, n.bit_length(), n < 0, n >= p)
            t.check(r is b, f'advance-return:{cfg.name}', f'advance returned {r!r}')
        t.note(' ; '.join(log))
        ops = ops_string(R, 30)
        t.same(mixed(b, None, 0, ops), mixed_model(mdl, ops), f'advance-model:{cfg.name}', ' ; '.join(log))
        # the reported state reproduces the position
        c = cfg.make(0)
        c.state = b.state
        ops = ops_string(R, 12)
        t.same(mixed(c, None, 0, ops), mixed_model(mdl, ops), f'advance-model:{cfg.name}', 'from the reported state, ' + ' ; '.join(log))
    return run


def lambda_(log):
    return ' ; '.join(log)


def drawn(cfg, part):
    """advance(n) vs n discarded draws, from every block position and phase"""
    def run(t):
        R = t.rng
        base = edgy(R, cfg)
        st0 = base.state
        a, d = cfg.make(0), cfg.make(0)
        for pos in range(18):
            for half in (0, 1):
                a.state = st0
                nats(a, cfg, pos)
                if half:
                    if cfg.W == 32:
                        continue
                    view32(a)()
                st = a.state
                for n in [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33] + [R.randrange(1, 300)]:
                    a.state = st
                    d.state = st
                    adv(a, cfg, n)
                    nats(d, cfg, n)
                    want = nats(d, cfg, 10)
                    got = nats(a, cfg, 10)
                    t.same(got, want, f'advance-draw:{cfg.name}', f'position {pos} half {half} advance({n})', sig=('draw', cfg.name, pos, half, n))
                # 32-bit and double views right after (half word dropped, as documented)
                for n in (1, 2, 5, 64):
                    a.state, d.state = st, st
                    adv(a, cfg, n)
                    nats(d, cfg, n)
                    clear_half(d)
                    ops = ops_string(R, 14)
                    t.same(future(a, ops), future(d, ops), f'advance-views:{cfg.name}', f'position {pos} half {half} advance({n}) then {"".join(ops)}')
                    if cfg.cls not in PREFETCH:
                        t.check(live(a.state) == live(d.state), f'advance-state:{cfg.name}', lambda: f'{diff(a.state, d.state)}')
                # advance(0)
                a.state, d.state = st, st
                adv(a, cfg, 0)
                t.same(nats(a, cfg, 9), nats(d, cfg, 9), f'advance-zero:{cfg.name}', f'position {pos} half {half} advance(0)')
                t.obs(9)
        t.note('every position 0..17 in both half-word phases, 15 distances each')
    return run


def clear_half(b):
    st = b.state
    if st.get('has_uint32', 0):
        st['has_uint32'], st['uinteger'] = 0, 0
        b.state = st


def algebra(cfg, i):
    def run(t):
        R = t.rng
        log = []
        b = history(edgy(R, cfg), cfg, R, R.randint(0, 4), log, allow=('draw', 'raw', 'np', 'adv', 'jump', 'state'))
        x, y, p = ndist(R, cfg), ndist(R, cfg), 1 << period_bits(cfg)
        st = b.state
        c = cfg.make(0)
        sq = cfg.cls is rg.Squares
        # a then b == a+b
        adv(b, cfg, x)
        adv(b, cfg, y)
        c.state = st
        adv(c, cfg, (x + y) % p if sq else x + y)
        t.note(f'{log} advance {x} then {y}')
        w = nats(b, cfg, 12)
        t.same(w, nats(c, cfg, 12), f'advance-add:{cfg.name}', f'{log}: {x} then {y} vs sum', sig=('add', cfg.name, x, y))
        clear_half(b), clear_half(c)
        if cfg.cls not in PREFETCH:
            t.check(live(b.state) == live(c.state), f'advance-add:{cfg.name}', lambda: f'{x}+{y}: {diff(b.state, c.state)}')
        # there and back
        b.state = st
        adv(b, cfg, x)
        adv(b, cfg, -x % p if sq else -x)
        c.state = st
        t.same(nats(b, cfg, 12), nats(c, cfg, 12), f'advance-back:{cfg.name}', f'{log}: {x} and back')
        # whole period, and modulo
        b.state = st
        adv(b, cfg, 0 if sq else p * R.choice([1, 2, -1, 5]))
        c.state = st
        t.same(nats(b, cfg, 12), nats(c, cfg, 12), f'advance-period:{cfg.name}', f'{log}: whole periods')
        b.state, c.state = st, st
        adv(b, cfg, x % p if sq else x + p * R.choice([1, -1, 7]))
        adv(c, cfg, x)
        t.same(nats(b, cfg, 12), nats(c, cfg, 12), f'advance-mod:{cfg.name}', f'{log}: {x} plus whole periods')
        if sq:
            for bad in (-1, -x - 1, p, p + x):
                try:
                    b.state = st
                    b.advance(bad)
                    t.fail(f'advance-range:{cfg.name}', f'advance({bad}) accepted by a class documented for [0, 2**64)')
                except (OverflowError, ValueError):
                    pass
        # draws made between split advances
        k = R.randint(1, 9)
        b.state, c.state = st, st
        adv(b, cfg, x)
        mid = nats(b, cfg, k)
        adv(b, cfg, y)
        adv(c, cfg, (x + k + y) % p if sq else x + k + y)
        t.same(nats(b, cfg, 8), nats(c, cfg, 8), f'advance-mixed:{cfg.name}', f'{x}, {k} draws, {y}')
        c.state = st
        adv(c, cfg, (x + k) % p if sq else x + k)
        adv(c, cfg, (p - k) if sq else -k)
        t.same(nats(c, cfg, k), mid, f'advance-mixed:{cfg.name}', f'back by {k} replays the words drawn')
        # distances that are no integers are refused
        for v in (1.5, -0.5, 3 + 0j, '3', None, float('nan'), float('inf')):
            try:
                b.state = st
                adv(b, cfg, v)
                t.fail(f'advance-fraction:{cfg.name}', f'advance({v!r}) accepted')
            except (TypeError, ValueError, OverflowError):
                pass
        # numpy integers and other integer-likes
        for tp in (np.int64, np.uint64, np.int32, np.uint8):
            v = R.randrange(1, 200)
            if tp in (np.int64, np.uint64):
                v = R.choice([v, np.iinfo(tp).max, np.iinfo(tp).max - 3, 1 << 62])
            if tp is np.int64 and not sq and R.random() < .5:
                v = -v
            b.state, c.state = st, st
            adv(b, cfg, tp(v))
            adv(c, cfg, v)
            t.same(nats(b, cfg, 5), nats(c, cfg, 5), f'advance-inttype:{cfg.name}', f'{tp.__name__}({v})')
    return run


def blocks(cfg, i):
    """counter=True: whole blocks"""
    def run(t):
        R = t.rng
        n = cfg.kw['number']
        b, mdl, how = fresh(R, cfg)
        nats(b, cfg, k := R.randrange(12))
        for _ in range(k):
            mdl.nat()
        d = R.choice([1, 2, 3, 1 << 31, 1 << 32, (1 << 64) - 1, 1 << 64, R.getrandbits(n * cfg.kw['width'] - 1) + 1])
        st = b.state
        b.advance(d, counter=True)
        mdl.ctr, mdl.q = (mdl.ctr + d) % mdl.mod, []
        t.same(nats(b, cfg, 15), [mdl.nat() for _ in range(15)], f'advance-blocks:{cfg.name}', f'{how}, {k} draws, advance({d}, counter=True)',
               sig=('blocks', cfg.name, k, d))
        # documented conversion: delta*number draws, from a block boundary
        if k % n == 0:
            c = cfg.make(0)
            c.state = st
            c.advance(d * n, counter=False)
            b.state = st
            b.advance(d, counter=True)
            t.same(nats(c, cfg, 9), nats(b, cfg, 9), f'advance-convert:{cfg.name}', f'advance({d},True) vs advance({d * n},False)')
        # default is counter=True, with a warning
        b.state = st
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            b.advance(d)
        t.check(any(issubclass(x.category, FutureWarning) for x in w), f'advance-default:{cfg.name}', 'no FutureWarning')
        c = cfg.make(0)
        c.state = st
        c.advance(d, counter=True)
        t.same(nats(b, cfg, 9), nats(c, cfg, 9), f'advance-default:{cfg.name}', 'default counter')
    return run


def cases(ctx):
    for c in ADV:
        for i in range(ctx.n(40, 1500)):
            yield f'model/{c.name}/{i}', model(c, i)
        for i in range(ctx.n(2, 20)):
            yield f'drawn/{c.name}/{i}', drawn(c, i)
        for i in range(ctx.n(25, 800)):
            yield f'algebra/{c.name}/{i}', algebra(c, i)
        if c.cls in R123:
            for i in range(ctx.n(30, 600)):
                yield f'blocks/{c.name}/{i}', blocks(c, i)
    for i in range(ctx.n(150, 4000)):
        yield f'params/model/{i}', params(model, i, ADVANCING)
    for i in range(ctx.n(80, 2000)):
        yield f'params/algebra/{i}', params(algebra, i, ADVANCING)
