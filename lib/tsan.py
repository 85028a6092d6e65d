"""Run a program in the tree built with ThreadSanitizer and read its reports.

Only the extension modules are instrumented, so only their memory accesses are judged; the locks of the interpreter and of the
generators (POSIX mutexes, condition variables, semaphores) are seen through the interceptors of the preloaded libtsan."""
import json
import os
import re
import resource
import subprocess

HOME = os.environ.get('VERIF_HOME', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
FRAME = re.compile(r'^\s+#\d+ (\S+).*?(randomgen\S*?)(?::\d+)?(?:\s|$|\()')


def unlimited():
    """ThreadSanitizer reserves terabytes of addresses for its shadow"""
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def run(mode, names, seed, rounds, timeout=100):
    """-> (statistics or None, [(configuration, key, text)], trouble)"""
    tree = os.environ['VERIF_TREE_TSAN']
    lib = subprocess.run(['gcc', '-print-file-name=libtsan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONMALLOC', 'MALLOC_PERTURB_', 'LD_PRELOAD')}
    env.update(LD_PRELOAD=os.path.realpath(lib),
               PYTHONPATH=os.pathsep.join([tree, os.path.join(HOME, 'lib'), HOME]),
               TSAN_OPTIONS='exitcode=0:history_size=4:report_thread_leaks=0:report_signal_unsafe=0:detect_deadlocks=0:'
                            'report_destroy_locked=0:halt_on_error=0')
    cmd = ['python', '-W', 'ignore', os.path.join(HOME, 'checks', 'race.py'), mode, str(seed), str(rounds)] + list(names)
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=unlimited)
    except subprocess.TimeoutExpired as e:
        err = (e.stderr or b'').decode(errors='replace')
        return None, reports(err), 'hang in ' + (re.findall(r'@@ (\S+)', err) or ['start'])[-1]
    err = p.stderr.decode(errors='replace')
    if p.returncode:
        last = (re.findall(r'@@ (\S+)', err) or ['start'])[-1]
        return None, reports(err), ('start' if last == 'start' else f'exit {p.returncode} in {last}') + ': ' + err[-600:]
    return json.loads(p.stdout.decode().splitlines()[-1]), reports(err), None


def reports(err):
    out, cfg, block = [], '-', None
    for line in err.splitlines():
        if line.startswith('@@ '):
            cfg = line[3:].strip()
        if 'WARNING: ThreadSanitizer' in line:
            block = [line]
        elif block is not None:
            block.append(line)
            if line.startswith('SUMMARY: '):
                fn = judge(block)
                if fn:
                    kind = block[0].split('ThreadSanitizer:')[1].split('(')[0].strip()
                    out.append((cfg, f'{kind}:{fn}', '\n'.join(x for x in block if x.strip())[:1400]))
                block = None
    return out


def judge(block):
    """the functions of randomgen that are involved (None: none are)"""
    fs, first = [], True
    for line in block:
        if line.strip().startswith(('Location is', 'Mutex', 'Thread T')):
            break
        m = FRAME.match(line)
        if m and 'libtsan' not in line:
            if first and m.group(1) not in fs:
                fs.append(m.group(1))           # the innermost frame of each of the two accesses
            first = False
        elif not re.match(r'^\s+#\d+', line):
            first = True
    return '+'.join(fs[:2]) if fs else None


def family(mode, names, i, rounds):
    """a case: threads under ThreadSanitizer"""
    def run(t):
        if not os.environ.get('VERIF_TREE_TSAN'):
            return
        st, rep, trouble = tsan_run(mode, names, t.rng.getrandbits(32), rounds)
        t.evals += 1
        for cfg, key, text in rep:
            t.fail(f'race:{cfg}:{key}', text, stop=False)
        if trouble and trouble.startswith('start'):
            t.note('ThreadSanitizer does not start here: ' + trouble)
            return
        t.check(not trouble, f'race:trouble:{mode}', f'threads under ThreadSanitizer: {trouble}')
        for k, n in st['done'].items():
            t.obs(n)
            for c in names:
                t.hit('race', mode, c, k)
        t.evals += sum(st['done'].values())
        t.note(f'{mode} {" ".join(names)}: {sum(st["done"].values())} operations of 4 threads under ThreadSanitizer, {len(rep)} races')
    return run


tsan_run = run
