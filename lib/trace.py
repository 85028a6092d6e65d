"""Execute a script of public operations on one generator and record what it delivered.

Runs in the build under test and, as a server over a pipe, in other builds of the same sources."""
import pickle
import sys
import warnings
warnings.simplefilter('ignore')
from hist import *  # noqa
from configs import CFGS  # noqa

TOGGLE = {'AESCounter': 'use_aesni', 'ChaCha': 'use_simd', 'SPECK128': 'use_sse41'}


def toggle(b, on):
    a = TOGGLE.get(type(b).__name__)
    if a is None:
        return
    try:
        setattr(b, a, bool(on))
    except ValueError:
        if not on:
            raise


class Actor:
    def __init__(self):
        self.b = self.cfg = None

    def do(self, op):
        k, a = op[0], op[1:]
        if k == 'make':
            self.cfg = CFGS[a[0]]
            self.b = self.cfg.make(a[1])
        elif k == 'keyed':
            self.cfg = CFGS[a[0]]
            self.b = self.cfg.make_keyed(*a[1:])
        elif k == 'mixed':
            return future(self.b, a[0])
        elif k == 'raw':
            return [int(x) for x in self.b.random_raw(a[0])]
        elif k == 'adv':
            advance(self.b, self.cfg, a[0])
        elif k == 'jump':
            self.b = self.b.jumped(a[0])
        elif k == 'seed':
            self.b.seed(a[0])
        elif k == 'toggle':
            toggle(self.b, a[0])
        elif k == 'state':
            return live(self.b.state)
        elif k == 'full':
            return canon(self.b.state)
        elif k == 'export':
            return pickle.dumps(self.b.state)
        elif k == 'import':
            self.b.state = pickle.loads(a[0])
        elif k == 'roundtrip':
            self.b = pickle.loads(pickle.dumps(self.b, a[0]))
        elif k == 'gen':
            g = np.random.Generator(self.b)
            return [[] if weak(self.cfg.name) else g.standard_normal(a[0]).tolist(), g.integers(0, 16 if a[1] == 10 and weak(self.cfg.name) else a[1], a[0]).tolist(), g.random(a[0], dtype=np.float32).tolist()]
        else:
            raise KeyError(k)
        return None

    def run(self, ops):
        return [self.do(op) for op in ops]


def serve():
    inp, out = sys.stdin.buffer, sys.stdout.buffer
    actors = {}
    import randomgen
    pickle.dump(randomgen.__file__, out)
    out.flush()
    while True:
        try:
            who, ops = pickle.load(inp)
        except EOFError:
            return
        if who is None:
            actors.clear()
            r = None
        else:
            try:
                r = actors.setdefault(who, Actor()).run(ops)
            except Exception as e:
                r = f'{type(e).__name__}: {e}'
        pickle.dump(r, out)
        out.flush()


class Remote:
    """the same scripts, executed by another build"""

    def __init__(self, tree):
        import os
        import subprocess
        env = dict(os.environ)
        env['PYTHONPATH'] = os.pathsep.join([tree, env['VERIF_HOME'] + '/lib', env['VERIF_HOME']])
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env)
        f = pickle.load(self.p.stdout)
        assert os.path.realpath(f).startswith(os.path.realpath(tree) + '/'), f

    def run(self, ops, who=0):
        pickle.dump((who, ops), self.p.stdin)
        self.p.stdin.flush()
        return pickle.load(self.p.stdout)

    def clear(self):
        self.run((), None)


if __name__ == '__main__':
    serve()
