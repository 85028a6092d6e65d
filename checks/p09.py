"""P09: accelerated and portable code paths are bit-identical and interchangeable mid-stream."""
import os
from checks.common import *
from trace import Actor, Remote, TOGGLE, toggle
from hist import *

ACC = [c for c in CFGS.values() if c.cls in (rg.AESCounter, rg.ChaCha, rg.SPECK128)]
PORT = [c for c in CFGS.values() if c.cls in (rg.AESCounter, rg.ChaCha, rg.SPECK128, rg.SFMT, rg.DSFMT, rg.PCG64, rg.PCG64DXSM,
                                              rg.LCG128Mix, rg.Philox)]
_remote = []


def remote():
    if not _remote:
        _remote.append(Remote(os.environ['VERIF_TREE_PORTABLE']))
    return _remote[0]


def start(R, cfg):
    if cfg.keyed and R.random() < .6:
        k = key_of(cfg, R)
        c = hostile_int(R, cfg.ctr_bits) if cfg.ctr_bits else None
        return ('keyed', cfg.name, k, c)
    return ('make', cfg.name, hostile_seed(R))


def script(R, cfg, n, big):
    ops = []
    for _ in range(n):
        k = R.randrange(12)
        if k < 4:
            ops.append(('mixed', ''.join(ops_string(R, R.choice([1, 2, 3, 7, 16, 33, 70])))))
        elif k < 6:
            ops.append(('raw', R.choice([0, 1, 2, 3, 5, 8, 15, 16, 17, 33, 64, 200] + ([311, 312, 313, 381, 382, 383, 700] if big else []))))
        elif k == 6:
            if cfg.advance:
                ops.append(('adv', R.choice([0, 1, 2, 3, 5, 8, 13, hostile_int(R, cfg.advance), -R.randrange(1, 9), -hostile_int(R, cfg.advance - 1) - 1])))
        elif k == 7:
            if cfg.cls not in (rg.ChaCha, rg.HC128, rg.PCG64DXSM) and hasattr(cfg.cls, 'jumped') and (not big or R.random() < .3):
                ops.append(('jump', R.choice([1, 1, 2, 3]) if not big else 1))
        elif k == 8:
            ops.append(('gen', R.randrange(4), R.choice([10, 1 << 31, 1 << 62])))
        elif k == 9:
            ops.append(('roundtrip', R.randrange(2, 6)))
        elif k == 10:
            ops.append(('seed', R.randrange(1 << 20)) if R.random() < .3 else ('state',))
        else:
            ops.append(('state',))
    return ops + [('state',), ('mixed', ''.join(ops_string(R, 12)))]


def compare(t, got, want, ops, key, what):
    if isinstance(want, str):
        t.fail(key, f'{what}: the other path failed: {want}')
    for i, (g, w) in enumerate(zip(got, want)):
        if not t.check(g == w, key, lambda: f'{what}: after {ops[:i]} {ops[i]} gives {str(g)[:300]} on one path and {str(w)[:300]} on the other'):
            break
        t.obs(len(g) if isinstance(g, list) else 1)


def toggled(cfg, i):
    """the path is switched at random between operations; twins run with it fixed on and fixed off"""
    def run(t):
        R = t.rng
        first = start(R, cfg)
        ops = script(R, cfg, R.choice([6, 12, 25]), False)
        a, on, off = Actor(), Actor(), Actor()
        A = [a.do(first)]
        pattern = []
        for op in ops:
            f = R.random() < .5
            pattern.append(int(f))
            toggle(a.b, f)
            A.append(a.do(op))
        res = []
        for x, f in ((on, True), (off, False)):
            out = [x.do(first)]
            for op in ops:
                toggle(x.b, f)
                out.append(x.do(op))
            res.append(out)
        full = [first] + ops
        compare(t, res[0], res[1], full, f'accel-vs-soft:{cfg.name}', 'acceleration always on vs always off')
        compare(t, A, res[0], full, f'accel-switch:{cfg.name}', f'switching pattern {pattern} vs always on')
        for j in range(1, len(pattern)):
            if pattern[j] != pattern[j - 1]:
                t.hit('switch', cfg.name, pattern[j], ops[j][0], ops[j - 1][0], len(ops[j][1]) if ops[j][0] == 'mixed' else ops[j][1:])
        t.note(f'{first} then {ops[:4]} switching {pattern}')
        # the flag must not affect the reference model either
        toggle(a.b, True)
    return run


def boundary(cfg, i):
    """switch at every position of a block, in both half-word phases and both directions"""
    def run(t):
        R = t.rng
        key = key_of(cfg, R)
        ctr = hostile_int(R, cfg.ctr_bits)
        mdl0 = lambda: cfg.keyed(key, ctr)
        for pos in range(0, 35):
            for half in ('', '3'):
                for f in (True, False):
                    b = cfg.make_keyed(key, ctr)
                    mdl = mdl0()
                    ops = 'r' * pos + half
                    toggle(b, f)
                    got = future(b, ops)
                    toggle(b, not f)
                    tail = ''.join(ops_string(R, 9)) + 'r' * 20
                    got += future(b, tail)
                    t.same(got, mixed_model(mdl, ops + tail), f'accel-boundary:{cfg.name}',
                           f'key {key:#x} counter {ctr:#x}: {"accelerated" if f else "portable"} for {ops!r}, then switched',
                           sig=('boundary', cfg.name, pos, half, f))
        toggle(b, True)
    return run


def flag(cfg, i):
    """switching has no effect of its own; states are interchangeable"""
    def run(t):
        R = t.rng
        b, c = cfg.make(5), cfg.make(5)
        for _ in range(12):
            ops = ops_string(R, R.randrange(20))
            toggle(b, R.random() < .5)
            x = future(b, ops)
            toggle(b, R.random() < .5)
            t.same(future(c, ops), x, f'accel-switch:{cfg.name}', 'two generators, different paths')
            before = canon(b.state)
            toggle(b, R.random() < .5)
            t.check(canon(b.state) == before, f'accel-flag-state:{cfg.name}', 'switching the path changed the state')
            at = TOGGLE[type(b).__name__]
            setattr(b, at, False)
            t.check(not getattr(b, at), f'accel-flag:{cfg.name}', 'flag not cleared')
            d = cfg.make(99)
            future(d, ops_string(R, R.randrange(20)))
            toggle(d, R.random() < .5)
            d.state = b.state
            toggle(d, R.random() < .5)
            o2 = ops_string(R, 30)
            y = future(d, o2)
            toggle(c, R.random() < .5)
            t.same(y, future(c, o2), f'accel-restore:{cfg.name}', 'state saved on one path, restored on the other')
            b.state = c.state
            t.hit('flag', cfg.name, len(ops))
        toggle(b, True)
    return run


def portable(cfg, i):
    """the same operations in the build without SIMD and without native 128-bit arithmetic; then states are exchanged"""
    def run(t):
        R = t.rng
        r = remote()
        r.clear()
        big = cfg.cls in (rg.SFMT, rg.DSFMT)
        a = Actor()
        ops = [start(R, cfg)] + script(R, cfg, R.choice([5, 10, 20]), big)
        compare(t, a.run(ops), r.run(ops), ops, f'portable-build:{cfg.name}', 'this build vs portable build')
        mine, theirs = a.run([('export',)])[0], r.run([('export',)])[0]
        ops2 = script(R, cfg, R.choice([5, 10]), big)
        u = R.randrange(3)
        if u == 0:      # a state saved there continues here
            b = Actor()
            b.run([('make', cfg.name, 4), ('import', theirs)])
            compare(t, b.run(ops2), r.run(ops2), ops2, f'portable-restore:{cfg.name}', f'state saved by the portable build after {ops}')
        elif u == 1:
            compare(t, a.run(ops2), r.run([('make', cfg.name, 4), ('import', mine)] + ops2, 1)[2:], ops2, f'portable-restore:{cfg.name}', f'state saved by this build after {ops}')
        else:
            compare(t, a.run(ops2), r.run(ops2), ops2, f'portable-build:{cfg.name}', f'continuing after {ops}')
        for x, y in zip(ops, ops[1:]):
            t.hit('portable', cfg.name, x[0], y)
        t.note(f'{ops[:4]}')
    return run


def cases(ctx):
    for c in ACC:
        for i in range(ctx.n(40, 1500)):
            yield f'toggled/{c.name}/{i}', toggled(c, i)
        for i in range(ctx.n(2, 40)):
            yield f'boundary/{c.name}/{i}', boundary(c, i)
        for i in range(ctx.n(6, 100)):
            yield f'flag/{c.name}/{i}', flag(c, i)
    for c in PORT:
        for i in range(ctx.n(30, 1500)):
            yield f'portable/{c.name}/{i}', portable(c, i)
    for i in range(ctx.n(80, 3000)):
        yield f'params/toggled/{i}', params(toggled, i, ROUNDS)
    for i in range(ctx.n(2, 40)):
        yield f'params/boundary/{i}', params(boundary, i, ROUNDS)
    for i in range(ctx.n(20, 400)):
        yield f'params/flag/{i}', params(flag, i, ROUNDS)
    for i in range(ctx.n(160, 6000)):
        yield f'params/portable/{i}', params(portable, i, ROUNDS + ('LCG128Mix', 'LCG128Mix'))
