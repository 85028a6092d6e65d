"""P24: hardware randomness never returns stale or unfilled data when the CPU fails."""
import ctypes
import os
import threading
import warnings
from checks.common import *
from hist import *
from checks.p20 import paths, dist_calls, ext_calls
from randomgen.wrapper import UserBitGenerator

L = ctypes.CDLL(os.environ['VERIF_PRELOAD']) if os.environ.get('VERIF_PRELOAD') else None
if L is not None:
    L.vf_count.restype = ctypes.c_uint64
    L.vf_script.argtypes = [ctypes.c_char_p, ctypes.c_uint64, ctypes.c_int, ctypes.c_uint64]
ONES = 2 ** 64 - 1


def script(pattern, tail, seed):
    b = bytes(pattern)
    L.vf_script(b, len(b), tail, seed)


def log(a=0):
    n = L.vf_count()
    v, s = np.empty(n - a, np.uint64), np.empty(n - a, np.uint8)
    L.vf_log(ctypes.c_uint64(a), ctypes.c_uint64(n - a), ctypes.c_void_p(v.ctypes.data), ctypes.c_void_p(s.ctypes.data))
    return v.tolist(), s.tolist()


def words(vals, stats, retries):
    """(hardware words obtained, number of words given up) in a stretch of the log"""
    out, bad, run = [], 0, 0
    for v, s in zip(vals, stats):
        if s:
            out.append(v)
            run = 0
        else:
            run += 1
            if run == retries + 1:
                bad += 1
                run = 0
    return out, bad


def view(kind, w):
    return w & 0xFFFFFFFF if kind == '3' else (w >> 11) / 2.0 ** 53 if kind == 'd' else w


def pattern(R, retries, n, kind):
    """statuses of the next instructions"""
    out = []
    while len(out) < n:
        if kind == 'good':
            out += [1] * 50
        elif kind == 'tolerable':                  # never more failures in a row than the retries allow
            out += [0] * R.choice([0, 0, 0, retries, R.randint(0, retries)]) + [1]
        elif kind == 'one':                        # one exhaustion somewhere
            k = R.randrange(n)
            return [1] * k + [0] * (retries + 1) + [1] * n
        elif kind == 'late':
            k = R.choice([0, 1, 254, 255, 256, 257, 511, 512, R.randrange(600)])
            return [1] * k + [0] * (retries + 1) + [1] * n
        elif kind == 'rare':
            out += [1] * R.randrange(400) + [0] * R.choice([retries, retries + 1, retries + 2, 2 * retries + 2])
        elif kind == 'random':
            out += [int(R.random() < .7) for _ in range(50)]
        elif kind == 'dead':
            out += [0] * 50
    return out


def history_case(i):
    def run(t):
        R = t.rng
        retries = R.choice([0, 0, 1, 2, 3, 10, 25])
        kind = R.choice(['good', 'tolerable', 'tolerable', 'one', 'late', 'late', 'rare', 'random', 'dead'])
        script(pattern(R, retries, R.choice([300, 900, 2500]), kind), 0 if kind == 'dead' else R.choice([1, 1, 1, 0]), R.getrandbits(60))
        b = rg.RDRAND(retries=retries)
        fifo, delivered = [], set()
        healthy = True
        P = paths(R)
        nsteps = R.choice([4, 12, 25])
        trace = []
        # a buffered word drawn by an instruction long ago is still fresh: it was not delivered before
        for _ in range(nsteps):
            z = R.random()
            if z < .06:
                b._reset()
                if not healthy:
                    healthy, fifo = True, []
                trace.append('_reset')
            elif z < .1:
                st = b.state
                retries = R.choice([0, 1, 2, 5])
                st['retries'] = retries
                b.state = st
                trace.append(f'retries={retries}')
            elif z < .14:
                st = b.state
                t.check(st['retries'] == retries and bool(st['status']) == healthy, 'state', f'state reports retries {st["retries"]} and status {st["status"]}')
            t.same(b.success, healthy, 'success-flag', f'RDRAND.success after {trace}')
            name, pk, call, conv = R.choice(P)
            n = R.choice([1, 1, 2, 3, 9, 60, 255, 256, 257, 300, 600]) if '(n' in name or 'bench' in name else R.choice([1, 2, 5])
            if name == 'random_raw((n,1))' and R.random() < .1:
                n = 0
            a = L.vf_count()
            err = got = None
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    got = call(b, n)
            except (RuntimeError, SystemError) as e:
                err = e
            trace.append(f'{name} n={n}{" -> " + type(err).__name__ if err else ""}')
            vals, stats = log(a)
            got_words, bad = words(vals, stats, retries)
            t.obs(len(vals))
            t.evals += 1
            if b.lock.acquire(False):
                b.lock.release()
            else:
                t.fail('lock-held', f'{trace}: the lock is still taken')
            # list-building paths make several calls; one failing call ends the list
            if healthy and not bad:
                if err is not None:
                    t.fail(f'spurious-failure:{name}', f'{trace} (retries {retries}): raised {type(err).__name__} although no word needed more than {retries} retries')
                if pk == 'r':
                    if len(got_words) != n or len(stats) and not stats[-1]:
                        t.fail(f'words:{name}', f'{trace}: {len(got_words)} hardware words were fetched for {n} values')
                    exp = got_words
                else:
                    fifo += got_words
                    exp, fifo = fifo[:n], fifo[n:]
                    if len(exp) != n:
                        t.fail(f'words:{name}', f'{trace}: only {len(exp)} fresh hardware words exist for {n} values')
                if got is not None:
                    t.same(got, [conv(view(pk, w)) for w in exp], f'values:{name}', f'{trace} (retries {retries}, pattern {kind})')
                for w in exp:
                    if w in delivered:
                        t.fail('repeated', f'{trace}: hardware word {w:#x} delivered twice')
                    delivered.add(w)
            elif healthy:
                healthy = False
                if err is None:
                    t.fail(f'unreported:{name}', f'{trace} (retries {retries}, pattern {kind}): {bad} words were given up but the call returned normally')
                fifo = []
            else:
                if pk == 'r' and err is None and n > 0:
                    t.fail(f'unreported:{name}', f'{trace}: random_raw returned normally although the generator has failed and was not reset')
                if got is not None and pk in 'r6' and conv is int:
                    for w in got:
                        if w in (0, ONES) or w in delivered:
                            t.fail(f'stale:{name}', f'{trace}: delivered {w:#x}, which is {"an unfilled" if w in (0, ONES) else "an already delivered"} word')
            t.same(b.success, healthy, 'success-flag', f'RDRAND.success after {trace}')
            t.hit(name, kind, healthy, err is not None)
    return run


def dist(i):
    """under distributions: the same results as a generator serving the logged words; failures surface as exceptions"""
    def run(t):
        R = t.rng
        retries = R.choice([0, 1, 3, 10])
        good = R.random() < .5
        script(pattern(R, retries, 6000, 'tolerable') if good else pattern(R, retries, 3000, R.choice(['late', 'rare', 'dead', 'one'])), 1 if good else R.choice([0, 1]), R.getrandbits(60))
        b = rg.RDRAND(retries=retries)
        if R.random() < .5:
            b.random_raw(R.randrange(5)) if good else None
        a0 = L.vf_count()
        g, e = np.random.Generator(b), rg.ExtendedGenerator(b)
        calls = [(c, g) for c in dist_calls(R)] + [(c, e) for c in ext_calls(R)]
        R.shuffle(calls)
        if good:
            res = [c(x) for c, x in calls]
            vals, stats = log(a0)
            ws, bad = words(vals, stats, retries)
            it = iter(ws)
            u = UserBitGenerator(lambda p: next(it), 64, lambda p: next(it), lambda p: next(it) & 0xFFFFFFFF, lambda p: (next(it) >> 11) / 2.0 ** 53)
            gu, eu = np.random.Generator(u), rg.ExtendedGenerator(u)
            for k, (c, x) in enumerate(calls):
                y = c(gu if x is g else eu)
                t.same(canon(np.asarray(res[k])), canon(np.asarray(y)), 'distribution', 'a distribution on the hardware generator against the words the hardware delivered')
                t.evals += 1
            t.check(b.success, 'success-flag', 'success is False although no word needed more than the retries')
            t.hit('dist', 'good')
        else:
            for c, x in calls:
                a, ok = L.vf_count(), b.success
                err = None
                try:
                    c(x)
                except (RuntimeError, SystemError) as ex:
                    err = ex
                vals, stats = log(a)
                ws, bad = words(vals, stats, retries)
                t.obs(len(vals))
                t.evals += 1
                if ok and bad and err is None:
                    t.fail('unreported:distribution', f'{bad} words were given up during a distribution call that returned normally')
                if ok and not bad and err is not None:
                    t.fail('spurious-failure:distribution', f'{type(err).__name__} although no word was given up')
                t.same(b.success, ok and not bad, 'success-flag', 'success after a distribution call')
                if b.lock.acquire(False):
                    b.lock.release()
                else:
                    t.fail('lock-held', 'a failing distribution call leaves the lock taken')
                t.hit('dist', ok, bool(bad), err is not None)
                if err is not None and R.random() < .3:
                    b._reset()
    return run


def threads(i):
    """several threads: no deadlock, every returned word is a distinct hardware word"""
    def run(t):
        R = t.rng
        retries = R.choice([0, 1, 3])
        kind = R.choice(['good', 'tolerable', 'tolerable', 'rare', 'dead', 'random'])
        script(pattern(R, retries, 8000, kind), int(kind != 'dead'), R.getrandbits(60))
        b = rg.RDRAND(retries=retries)
        mode = R.choice(['raw', 'raw1', 'buffered', 'mixed'])
        g = rg.ExtendedGenerator(b)
        outs, errs = [], []

        def work(k):
            for j in range(12):
                m = mode if mode != 'mixed' else 'raw' if (k + j) % 2 else 'buffered'
                try:
                    r = [int(b.random_raw())] if m == 'raw1' else (b.random_raw(60) if m == 'raw' else g.uintegers(60)).tolist()
                    outs.append((m, r))
                except (RuntimeError, SystemError) as e:
                    errs.append(e)
                except BaseException as e:
                    errs.append(e)
                    outs.append(('odd', repr(e)))
        ths = [threading.Thread(target=work, args=(k,)) for k in range(4)]
        for x in ths:
            x.start()
        for x in ths:
            x.join()
        vals, stats = log()
        ws, bad = words(vals, stats, 10 ** 9)
        odd = [r for m, r in outs if m == 'odd']
        t.check(not odd, 'threads-exception', f'{odd[:2]}')
        got = [w for m, r in outs for w in r]
        t.obs(len(got))
        if kind in ('good', 'tolerable'):
            t.check(not errs and b.success, 'spurious-failure:threads', f'{len(errs)} calls raised although no word was given up')
            t.check(len(set(got)) == len(got) and set(got) <= set(ws), 'values:threads', f'{len(got) - len(set(got))} repeated and {len(set(got) - set(ws))} invented words in {len(got)} delivered to four threads ({mode})')
            if mode in ('raw', 'raw1'):
                t.check(len(ws) == len(got), 'words:threads', f'{len(ws)} hardware words for {len(got)} values')
        else:
            t.check(not any(w in (0, ONES) for m, r in outs for w in r), 'stale:threads', 'an unfilled word was delivered')
            raw = [w for m, r in outs if m != 'buffered' for w in r]
            t.check(len(set(raw)) == len(raw) and set(raw) <= set(ws), 'values:threads', f'words delivered by random_raw to four threads are repeated or invented ({kind}, {mode})')
            t.check(b.success == (not errs), 'success-flag', f'success is {b.success} after {len(errs)} failing calls')
        if b.lock.acquire(False):
            b.lock.release()
        else:
            t.fail('lock-held', 'the lock is taken after all threads ended')
        t.hit('threads', kind, mode, bool(errs))
    return run


def derived(i):
    """copies and refused arguments"""
    def run(t):
        R = t.rng
        script([], 1, R.getrandbits(60))
        for bad in (-1, -5, 'a', 2 ** 40, None):
            try:
                rg.RDRAND(retries=bad)
                t.fail('accepted:retries', f'RDRAND(retries={bad!r}) was accepted')
            except (TypeError, ValueError, OverflowError):
                pass
        for s in (1, 0, 'x', [1]):
            try:
                rg.RDRAND(s)
                t.fail('accepted:seed', f'RDRAND({s!r}) was accepted')
            except TypeError:
                pass
        k = R.choice([0, 1, 2, 7])
        b = rg.RDRAND(retries=k)
        for _ in range(R.randrange(4)):
            rg.ExtendedGenerator(b).uintegers(R.choice([1, 100, 300]))
        for how in ('jumped', 'pickle', 'copy', 'deepcopy'):
            c = {'jumped': lambda: b.jumped(), 'pickle': lambda: pickle.loads(pickle.dumps(b)), 'copy': lambda: copy.copy(b), 'deepcopy': lambda: copy.deepcopy(b)}[how]()
            t.same(c.state['retries'], k, f'retries-lost:{how}', f'RDRAND(retries={k}), {how}')
            # a copy never repeats words of the original, nor unfilled ones
            x, y = rg.ExtendedGenerator(b).uintegers(300).tolist(), rg.ExtendedGenerator(c).uintegers(300).tolist()
            t.check(not set(x) & set(y) and len(set(y)) == 300 and not {0, ONES} & set(y), f'copy-repeats:{how}', f'a {how} copy delivers words of the original or unfilled words')
            script([0] * (k + 1), 1, R.getrandbits(60))
            try:
                c.random_raw()
                t.fail(f'unreported:{how}', f'{how} copy of RDRAND(retries={k}) tolerates {k + 1} failures in a row')
            except RuntimeError:
                pass
            t.check(b.success and not c.success, 'success-flag', f'{how} copy')
            script([0] * k, 1, R.getrandbits(60))
            b.random_raw()
            t.check(b.success, 'success-flag', 'original after its copy failed')
            t.hit('copy', how, k)
        st = b.state
        for v in (2 ** 31, 'a', 2 ** 40, None):
            try:
                b.state = dict(st, retries=v)
                t.fail('accepted:retries', f'state with retries {v!r} was accepted')
            except (TypeError, ValueError, OverflowError):
                pass
            t.same(b.state['retries'], k, 'retries-changed', f'refused state with retries {v!r}')
        # retries -1 in a state (the tests' way to provoke failures) leaves no attempt: every draw has to fail
        b.state = dict(st, retries=-1)
        for a in ((), (3,)):
            try:
                b.random_raw(*a)
                t.fail('unreported:no-attempt', f'random_raw{a} returned without an attempt to read the hardware')
            except RuntimeError:
                pass
    return run


def cases(ctx):
    for i in range(ctx.n(700, 15000)):
        yield f'history/{i}', history_case(i)
    for i in range(ctx.n(250, 5000)):
        yield f'dist/{i}', dist(i)
    for i in range(ctx.n(60, 1200)):
        yield f'threads/{i}', threads(i)
    for i in range(ctx.n(8, 60)):
        yield f'derived/{i}', derived(i)
