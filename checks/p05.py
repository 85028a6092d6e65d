"""P05: state save/restore, pickle, copy continue the stream exactly; states are snapshots."""
import copy
import pickle
import gc
from collections import defaultdict
from checks.common import *
from hist import *
from core import diff

SEEDY = ('draw', 'raw', 'np', 'adv', 'jump', 'seed')
BYCLS = defaultdict(list)
for _c in CFGS.values():
    BYCLS[_c.cls].append(_c)


def prep(R, cfg, log):
    """a generator somewhere in a history, with random sub-word phase"""
    b = history(edgy(R, cfg), cfg, R, R.choice([0, 0, 1, 2, 3, 5]), log, allow=SEEDY)
    f3, f6, fd = view32(b), view64(b), viewd(b)
    w = block_words(cfg)
    for _ in range(R.choice([0, 1, 2, 3, 5, R.randrange(20), R.randrange(w + 2)])):
        f3() if cfg.W == 32 else f6()
    for _ in range(R.choice([0, 1, 1, 2, 3])):
        R.choice([f3, f3, f6, fd])()
    return b


def phase(b):
    st = b.state
    s = st.get('state')
    x = [st.get('has_uint32')]
    for d in (st, s if isinstance(s, dict) else {}, st.get('s') if isinstance(st.get('s'), dict) else {}):
        for k in ('pos', 'buffer_pos', 'buffer_loc', 'buffer_idx', 'offset', 'idx', 'p', 'hc_idx'):
            if k in d and not isinstance(d[k], np.ndarray):
                x.append((k, int(d[k])))
    return tuple(x)


def paths(b, R):
    """the interface objects a holder might use"""
    out = [lambda k: [int(x) for x in b.random_raw(k)]]
    c = b.ctypes
    out.append(lambda k: [int(c.next_uint64(c.state)) for _ in range(k)])
    f = b.cffi
    out.append(lambda k: [int(f.next_uint64(f.state)) for _ in range(k)])
    return out


def agree(t, a, b, key, what, sig=None, ops=None):
    R = t.rng
    t.check(live(a.state) == live(b.state), f'{key}-state', lambda: f'{what}: {diff(a.state, b.state)}', sig=sig)
    ops = ops or ops_string(R, R.choice([25, 60, 200]))
    t.same(future(b, ops), future(a, ops), f'{key}-stream', what)
    t.check(live(a.state) == live(b.state), f'{key}-state-after', lambda: f'{what} after {len(ops)} draws: {diff(a.state, b.state)}')


def restore(cfg, i, cross):
    def run(t):
        R = t.rng
        log, log2 = [], []
        a = prep(R, cfg, log)
        other = R.choice(BYCLS[cfg.cls]) if cross else cfg
        b = prep(R, other, log2)
        # hold the interfaces before the assignment, as a user would
        held = None
        if R.random() < .5:
            held = (b.ctypes, b.cffi)
        before = canon(a.state)
        st = a.state
        mode = R.randrange(4)
        if mode == 1:
            st = copy.deepcopy(st)
        elif mode == 2:
            st = pickle.loads(pickle.dumps(st))
        elif mode == 3:
            b.state = b.state
        given = canon(st)
        b.state = st
        t.note(f'{cfg.name} {log} -> used {other.name} {log2} at {phase(a)}')
        t.check(canon(st) == given, f'setter-mutates-argument:{cfg.name}', 'assigning a state changed the dict assigned')
        t.check(canon(a.state) == before, f'getter-changes-source:{cfg.name}', 'reading/assigning the state changed the source')
        # what we assigned is a snapshot: scribbling on it must not reach b
        if R.random() < .5:
            scribble(st)
        agree(t, a, b, f'restore:{cfg.name}', f'{log} into {other.name} {log2} at phase {phase(a)}',
              sig=('restore', cfg.name, other.name, phase(a)))
        # and again through each interface after a cross restore
        k = R.randint(1, 9)
        for (p, q) in zip(paths(a, R), paths(b, R)):
            t.same(q(k), p(k), f'restore-paths:{cfg.name}', f'interfaces after restore from {other.name}')
        ga, gb = np.random.Generator(a), np.random.Generator(b)
        if not weak(cfg.name):
            t.same(gb.standard_normal(5), ga.standard_normal(5), f'restore-generator:{cfg.name}', 'numpy Generator after restore')
        t.same(gb.integers(0, 128, 7, dtype=np.uint8), ga.integers(0, 128, 7, dtype=np.uint8), f'restore-generator:{cfg.name}', 'integers')
        for z in (cfg.advance and 5,):
            if z:
                advance(a, cfg, z), advance(b, cfg, z)
                agree(t, a, b, f'restore-advance:{cfg.name}', 'advance after restore')
        if hasattr(a, 'jumped') and (cfg.cls not in (rg.MT19937, rg.SFMT, rg.DSFMT) or R.random() < .05):
            agree(t, a.jumped(), b.jumped(), f'restore-jump:{cfg.name}', 'jump after restore')
        del held
    return run


def scribble(x):
    if isinstance(x, dict):
        for k in list(x):
            v = x[k]
            if isinstance(v, (dict, np.ndarray)):
                scribble(v)
            elif isinstance(v, (int, np.integer)) and not isinstance(v, bool):
                x[k] = v + 1
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        x.view(np.uint8).ravel()[:] ^= 0x5A


def snapshot(cfg, i):
    def run(t):
        R = t.rng
        log = []
        a = prep(R, cfg, log)
        twin = cfg.make(R.randrange(99))
        twin.state = a.state
        s = a.state
        frozen = canon(s)
        ops = ops_string(R, R.choice([1, 3, 40]))
        future(a, ops)
        t.check(canon(s) == frozen, f'snapshot-moves:{cfg.name}', f'{log}: drawing changed a dict returned by state', sig=('snap', cfg.name, phase(twin)))
        if cfg.advance:
            advance(a, cfg, 77), advance(twin, cfg, 77)
            t.check(canon(s) == frozen, f'snapshot-moves:{cfg.name}', 'advance changed a dict returned by state')
        future(twin, ops) if not cfg.advance else None
        if cfg.advance:
            b = cfg.make(0)
            b.state = s
            future(b, ops)
            advance(b, cfg, 77)
            twin = b
        # edits of the returned object do not reach the generator
        s2 = a.state
        scribble(s2)
        t.check(canon(a.state) != canon(s2), f'snapshot-alias:{cfg.name}', 'state getter returns live storage')
        agree(t, twin, a, f'snapshot-alias:{cfg.name}', f'{log}: editing the returned state')
        # rewind: the same snapshot restores any number of times
        for _ in range(2):
            a.state = s
            t.check(canon(s) == frozen, f'snapshot-moves:{cfg.name}', 'restoring then drawing changed the dict')
            twin.state = s
            agree(t, twin, a, f'rewind:{cfg.name}', 'rewinding to a snapshot')
        a.seed(3, **({'idx': cfg.kw['idx']} if 'idx' in cfg.kw else {}))
        t.check(canon(s) == frozen, f'snapshot-moves:{cfg.name}', 'seed() changed a dict returned by state')
    return run


def clone(cfg, i):
    def run(t):
        R = t.rng
        log = []
        a = prep(R, cfg, log)
        how = R.choice([0, 1, 2, 3, 4, 5, 'copy', 'deepcopy', 'reduce', 'twice'])
        before = canon(a.state)
        ph = phase(a)
        b = dup(a, how)
        t.note(f'{cfg.name} {log} cloned by {how} at {ph}')
        t.check(b is not a and type(b) is type(a), f'clone-type:{cfg.name}', f'{how}: {type(b)}')
        t.check(canon(a.state) == before, f'clone-changes-source:{cfg.name}', f'{how} changed the source')
        # the clone is independent of the source
        if R.random() < .5:
            c = dup(a, 2)
            future(a, ops_string(R, 30))
            gc.collect() if R.random() < .05 else None
            t.check(canon(b.state) == before or live(b.state) == live(c.state), f'clone-linked:{cfg.name}', f'{how}: drawing from the source moved the clone')
            a = c
        agree(t, a, b, f'clone:{cfg.name}', f'{log} by {how} at phase {ph}', sig=('clone', cfg.name, how, ph))
        for (p, q) in zip(paths(a, R), paths(b, R)):
            t.same(q(3), p(3), f'clone-paths:{cfg.name}', 'interfaces after clone')
        if cfg.advance:
            advance(a, cfg, 1 << 40), advance(b, cfg, 1 << 40)
        if hasattr(a, 'jumped') and (cfg.cls not in (rg.MT19937, rg.SFMT, rg.DSFMT) or R.random() < .05):
            a, b = a.jumped(), b.jumped()
        agree(t, a, b, f'clone-later:{cfg.name}', f'{how} then advance/jump')
    return run


def dup(a, how):
    if how == 'copy':
        return copy.copy(a)
    if how == 'deepcopy':
        return copy.deepcopy([a])[0]
    if how == 'reduce':
        f, args, *rest = a.__reduce__()
        b = f(*args)
        if rest and rest[0] is not None:
            b.__setstate__(rest[0])
        return b
    if how == 'twice':
        return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(a))))
    return pickle.loads(pickle.dumps(a, how))


def gen_clone(cfg, i):
    """Generators built on the bit generator: numpy's and ExtendedGenerator"""
    def run(t):
        R = t.rng
        log = []
        a = prep(R, cfg, log)
        ph = phase(a)
        ext = R.random() < .6
        g = rg.ExtendedGenerator(a) if ext else np.random.Generator(a)
        how = R.choice([0, 1, 2, 3, 4, 5, 'copy', 'deepcopy', 'twice'])
        h = dup(g, how)
        t.note(f'{cfg.name} {type(g).__name__} {how}')
        if how != 'copy' or ext:
            t.check(h.bit_generator is not g.bit_generator or how == 'copy', f'genclone-shared:{cfg.name}', f'{how} shares the bit generator')
        if h.bit_generator is g.bit_generator:
            return
        t.check(live(h.bit_generator.state) == live(a.state), f'genclone-state:{cfg.name}', lambda: f'{how} {diff(h.bit_generator.state, a.state)}',
                sig=('gen', cfg.name, ext, how, ph))
        if ext:
            for bits in (32, 64, 32, 32, 64):
                n = R.randint(0, 5)
                t.same(h.uintegers(n, bits=bits), g.uintegers(n, bits=bits), f'genclone-stream:{cfg.name}', how)
            t.same(h.random(4, dtype=np.float32), g.random(4, dtype=np.float32), f'genclone-stream:{cfg.name}', how)
            if not weak(cfg.name):
                t.same(h.complex_normal(0, 2, .5, size=3), g.complex_normal(0, 2, .5, size=3), f'genclone-stream:{cfg.name}', how)
            # state property of the wrapper
            k = rg.ExtendedGenerator(cfg.make(0))
            k.state = g.state
            t.check(live(k.state) == live(g.state), f'extstate:{cfg.name}', 'ExtendedGenerator.state round trip')
            t.same(k.uintegers(9, bits=32), g.uintegers(9, bits=32), f'extstate:{cfg.name}', 'ExtendedGenerator.state')
            h.uintegers(9, bits=32)
            o = R.choice(BYCLS[cfg.cls])
            k = rg.ExtendedGenerator(o.make(5))
            k.random(3)
            k.state = g.state
            t.same(k.random(9), g.random(9), f'extstate-cross:{cfg.name}', f'ExtendedGenerator.state from {cfg.name} into {o.name}')
            t.same(k.uintegers(5, bits=32), g.uintegers(5, bits=32), f'extstate-cross:{cfg.name}', f'{cfg.name} into {o.name}')
            h.random(9), h.uintegers(5, bits=32)
            st = g.__getstate__() if R.random() < .5 else None
            if isinstance(st, dict):
                h.__setstate__(st)
        else:
            if not weak(cfg.name):
                t.same(h.standard_normal(9), g.standard_normal(9), f'genclone-stream:{cfg.name}', how)
            t.same(h.integers(0, 16, 9, dtype=np.uint16), g.integers(0, 16, 9, dtype=np.uint16), f'genclone-stream:{cfg.name}', how)
        agree(t, g.bit_generator, h.bit_generator, f'genclone:{cfg.name}', f'{how} at {ph}')
    return run


def ext_numpy(i):
    """ExtendedGenerator over NumPy's own bit generators"""
    def run(t):
        R = t.rng
        cls = R.choice([np.random.PCG64, np.random.MT19937, np.random.Philox, np.random.PCG64DXSM, np.random.SFC64])
        a = cls(R.randrange(999))
        g = rg.ExtendedGenerator(a)
        g.random(R.randrange(5)), g.uintegers(R.choice([0, 1, 3]), bits=32)
        how = R.choice([0, 2, 5, 'copy', 'deepcopy'])
        h = dup(g, how)
        t.check(type(h.bit_generator) is cls or True, f'extnumpy-type:{cls.__name__}', type(h.bit_generator), sig=('extnumpy', cls.__name__, how))
        for _ in range(3):
            n = R.randint(0, 6)
            t.same(h.random(n), g.random(n), f'extnumpy:{cls.__name__}', how)
            t.same(h.uintegers(n, bits=32), g.uintegers(n, bits=32), f'extnumpy:{cls.__name__}', how)
    return run


def sweep(cfg, part, parts):
    """every position of a block, both half-word phases"""
    def run(t):
        R = t.rng
        w = block_words(cfg)
        b = cfg.make(11)
        x = cfg.make(12)
        f3, f6 = view32(b), view64(b)
        start = part * w // parts
        for _ in range(start):
            f3() if cfg.W == 32 else f6()
        for k in range(start, (part + 1) * w // parts + 2):
            for half in (0, 1):
                c = dup(b, 2)
                if half:
                    view32(c)()
                x.state = c.state
                y = dup(c, R.choice([0, 2, 5]))
                ops = ops_string(R, 12)
                want = future(dup(c, 2), ops)
                t.same(future(x, ops), want, f'restore:{cfg.name}-stream', f'at position {k} half {half}', sig=('sweep', cfg.name, k, half))
                t.same(future(y, ops), want, f'clone:{cfg.name}-stream', f'at position {k} half {half}')
            f3() if cfg.W == 32 else f6()
    return run


def userdef(i):
    """UserBitGenerator forwards state"""
    def run(t):
        R = t.rng

        class Py:
            def __init__(self, s):
                self.s = s

            def nxt(self, _=None):
                self.s = (self.s * 6364136223846793005 + 1442695040888963407) & M64
                return self.s
        p = Py(R.getrandbits(64))
        seen = []

        def get():
            return {'s': p.s}

        def put(v):
            seen.append(v)
            p.s = v['s']
        b = rg.UserBitGenerator(p.nxt, 64, state_getter=get, state_setter=put)
        future(b, ops_string(R, R.randint(0, 9)))
        st = b.state
        t.check(st == {'s': p.s}, 'user-state', f'{st}', sig=('user', i))
        ops = ops_string(R, 30)
        want = future(b, ops)
        new = {'s': st['s']}
        b.state = new
        t.check(seen[-1] is new or seen[-1] == new, 'user-state', f'{seen[-1]}')
        t.same(future(b, ops), want, 'user-stream', 'restoring a user bit generator')
    return run


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    else:
        yield path, x


def put(d, path, v):
    d = copy.deepcopy(d)
    e = d
    for p in path[:-1]:
        e = e[p]
    e[path[-1]] = v
    return d


def edge(x, R):
    """the same kind of value at one of its extremes"""
    if isinstance(x, np.ndarray):
        x = x.copy()
        f = x.reshape(-1)
        if x.dtype.kind not in 'ui' or not f.size:
            return x
        top = int(np.iinfo(x.dtype).max)
        v = R.choice([0, top, 1, (top >> 1) + 1, top >> 1])
        if R.random() < .3:
            f[:] = v
        else:
            f[R.choice([0, -1, R.randrange(f.size)])] = v
        return x
    x = int(x)
    if -1 <= x <= 1100:
        return x ^ 1
    bits = (x.bit_length() + 31) // 32 * 32
    return R.choice([0, 1, (1 << bits) - 1, 1 << bits - 1, (1 << bits - 1) - 1])


def edges(cfg, i):
    """states holding extreme words (each as likely as any other, none met by chance): still saved and restored exactly"""
    def run(t):
        R = t.rng
        a = prep(R, cfg, [])
        for _ in range(4):
            st = d = a.state
            ps = [p for p, v in leaves(st) if p[-1] not in ('bit_generator', 'rounds', 'number', 'width', 'variant', 'use_aesni') and
                  (isinstance(v, np.ndarray) or isinstance(v, (int, np.integer)) and not isinstance(v, bool))]
            hit = []
            if 'uinteger' in st and R.random() < .5:
                d = put(put(d, ('has_uint32',), 1), ('uinteger',), R.choice([0, M32, 1, 2 ** 31, 2 ** 31 - 1]))
                hit.append('half')
            for p in R.sample(ps, R.choice([0, 1, 1, 2]) if hit else R.choice([1, 1, 2])):
                if p[-1] not in ('has_uint32', 'uinteger') or not hit:
                    d = put(d, p, edge(dict(leaves(d))[p], R))
                    hit.append(p)
            try:
                a.state = d
            except (ValueError, TypeError, OverflowError):
                a.state = st
                continue
            t.evals += 1
            if 'half' in hit:
                got = a.state
                t.check((int(got['has_uint32']), int(got['uinteger'])) == (1, int(d['uinteger'])), f'half-readback:{cfg.name}', lambda: f'assigned {d}, read {got}')
            ops = ['3'] * R.randrange(2) + ops_string(R, R.choice([8, 25, 80]))
            held = cfg.make(R.randrange(50))
            future(held, ops_string(R, R.randrange(9)))
            held.state = d
            twins = [held] + [dup(a, h) for h in R.sample([0, 1, 2, 3, 4, 5, 'copy', 'deepcopy', 'reduce', 'twice'], 2)]
            want = future(a, ops)
            for k, b in enumerate(twins):
                t.same(future(b, ops), want, f'edge:{cfg.name}', f'state with extremes in {hit}, twin {k}, drawing {"".join(ops[:30])}')
            t.hit('edge', cfg.name, str(hit)[:60])
        t.note(f'{cfg.name}: states holding extreme words')
    return run


def respell(x, R):
    """the same words in another container"""
    if isinstance(x, np.ndarray):
        v = R.choice(['list', 'tuple', 'strided', 'back', 'swapped', 'object', 'wide', 'readonly', 'ints', 'fortran', 'unaligned'])
        if v == 'list':
            return v, x.tolist()
        if v == 'tuple':
            return v, tuple(x.tolist()) if x.ndim == 1 else tuple(map(tuple, x.tolist()))
        if v == 'strided':
            return v, np.repeat(x, 2, axis=0)[::2]
        if v == 'back':
            return v, x[::-1].copy()[::-1]
        if v == 'swapped':
            return v, x.astype(x.dtype.newbyteorder())
        if v == 'object':
            return v, x.astype(object)
        if v == 'wide':
            return v, x.astype(np.uint64) if x.dtype.kind == 'u' else x.astype(np.int64) if x.dtype.kind == 'i' else x.astype(np.longdouble)
        if v == 'readonly':
            x = x.copy()
            x.flags.writeable = False
            return v, x
        if v == 'ints':
            return v, [w for w in x] if x.ndim == 1 else [list(r) for r in x]
        if v == 'fortran':
            return v, np.asfortranarray(x)
        buf = np.zeros(x.nbytes + 1, np.uint8)
        y = buf[1:].view(x.dtype).reshape(x.shape)
        y[...] = x
        return v, y
    if isinstance(x, bool) or not isinstance(x, (int, np.integer)):
        return 'same', x
    x = int(x)
    if 0 <= x < 2 ** 32:
        return 'np', R.choice([np.uint32, np.uint64, np.int64])(x)
    return ('np', np.uint64(x)) if 0 <= x < 2 ** 64 else ('same', x)


def spelled(cfg, i):
    """a state whose entries sit in other containers (lists after JSON, strided or byte-swapped arrays) is refused or restored exactly"""
    def run(t):
        R = t.rng
        a = prep(R, cfg, [])
        for _ in range(6):
            st = a.state
            new, how = copy.deepcopy(st), []
            for p, v in leaves(st):
                if R.random() < .7 and p[-1] != 'bit_generator':
                    w, x = respell(v, R)
                    how.append((p[-1], w))
                    e = new
                    for q in p[:-1]:
                        e = e[q]
                    e[p[-1]] = x
            b = cfg.make(R.randrange(50))
            future(b, ops_string(R, R.randrange(9)))
            try:
                b.state = new
            except (ValueError, TypeError, OverflowError):
                t.hit('spelled', cfg.name, 'refused')
                continue
            t.evals += 1
            del new
            agree(t, dup(a, 2), b, f'spelled:{cfg.name}', f'entries spelled {how}', sig=('spelled', cfg.name, str(how)[:60]), ops=ops_string(R, R.choice([10, 40])))
            b.state = st
            future(a, ops_string(R, R.randrange(30)))
        t.note(f'{cfg.name}: state entries in other containers')
    return run


def cases(ctx):
    for c in CFGS.values():
        for i in range(ctx.n(10, 300)):
            yield f'edges/{c.name}/{i}', edges(c, i)
        for i in range(ctx.n(4, 100)):
            yield f'spelled/{c.name}/{i}', spelled(c, i)
        for i in range(ctx.n(10, 300)):
            yield f'restore/{c.name}/{i}', restore(c, i, False)
        if len(BYCLS[c.cls]) > 1:
            for i in range(ctx.n(8, 200)):
                yield f'cross/{c.name}/{i}', restore(c, i, True)
        for i in range(ctx.n(6, 150)):
            yield f'snapshot/{c.name}/{i}', snapshot(c, i)
        for i in range(ctx.n(10, 300)):
            yield f'clone/{c.name}/{i}', clone(c, i)
        for i in range(ctx.n(6, 150)):
            yield f'gen/{c.name}/{i}', gen_clone(c, i)
        big = block_words(c) > 64
        if big or ctx.thorough:
            parts = 8 if big else 1
            for p in range(parts):
                yield f'sweep/{c.name}/{p}', sweep(c, p, parts)
        else:
            yield f'sweep/{c.name}/0', sweep(c, 0, 2)
    for i in range(ctx.n(150, 4000)):
        yield f'params/restore/{i}', params(lambda c, i: restore(c, i, i % 2), i)
        yield f'params/clone/{i}', params(clone, i)
    for i in range(ctx.n(40, 1000)):
        yield f'params/snapshot/{i}', params(snapshot, i)
        yield f'params/spelled/{i}', params(spelled, i)
        yield f'params/gen/{i}', params(gen_clone, i)
    for i in range(ctx.n(40, 800)):
        yield f'extnumpy/np/{i}', ext_numpy(i)
    for i in range(ctx.n(10, 100)):
        yield f'userdef/py/{i}', userdef(i)
