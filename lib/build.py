"""Build /repo's current working tree (tracked + untracked, not ignored) out of tree."""
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')

DRIVER = r'''
import sys, os, copy, runpy, functools
import Cython.Build
from setuptools.command.build_ext import build_ext
_c = Cython.Build.cythonize
ONLY = os.environ.get('VERIF_ONLY_EXT', '').split()
def cyth(*a, **k):
    k['nthreads'] = 8
    k['annotate'] = False
    if ONLY:
        a = ([e for e in a[0] if e.name.split('.')[-1] in ONLY],) + a[1:]
    return _c(*a, **k)
Cython.Build.cythonize = cyth
be = build_ext.build_extension
EXTRA_C = os.environ.get('VERIF_EXTRA_C', '').split()
EXTRA_L = os.environ.get('VERIF_EXTRA_L', '').split()
def iso(self, ext):
    c = copy.copy(self)
    c.build_temp = os.path.join(self.build_temp, ext.name)
    ext.extra_compile_args = list(ext.extra_compile_args or []) + EXTRA_C
    ext.extra_link_args = list(ext.extra_link_args or []) + EXTRA_L
    be(c, ext)
build_ext.build_extension = iso
sys.argv = ['setup.py', '-q', 'build_ext', '--inplace', '--force', '--parallel=8']
sys.path.insert(0, os.getcwd())
runpy.run_path('setup.py', run_name='__main__')
'''


def snapshot(dst):
    if os.path.isdir(os.path.join(REPO, '.git')):
        out = subprocess.run(['git', '-c', 'safe.directory=*', '-C', REPO, 'ls-files', '-z', '-co', '--exclude-standard'],
                             stdout=subprocess.PIPE, check=True).stdout
        files = [os.fsdecode(f) for f in out.split(b'\0') if f]
    else:
        files = []
        for d, ds, fs in os.walk(REPO):
            ds[:] = [x for x in ds if x not in ('build', '__pycache__')]
            files += [os.path.relpath(os.path.join(d, f), REPO) for f in fs
                      if not f.endswith(('.so', '.o', '.html'))]
    for f in files:
        s = os.path.join(REPO, f)
        if not os.path.isfile(s):
            continue
        d = os.path.join(dst, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy2(s, d)


def envvars(extra=None):
    """environment of /opt/vp/env.sh"""
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh && env -0'], stdout=subprocess.PIPE, check=True).stdout
    env = {}
    for kv in out.split(b'\0'):
        if b'=' in kv:
            k, v = kv.split(b'=', 1)
            env[os.fsdecode(k)] = os.fsdecode(v)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env.update(extra or {})
    return env


PORTABLE = 'aes chacha speck128 sfmt dsfmt pcg64 philox'


def build(dst, variant='plain', log=None, base=None):
    """base: a finished plain build whose other extension modules are reused (variant portable)"""
    snapshot(dst)
    drv = os.path.join(dst, '_verif_build.py')
    with open(drv, 'w') as f:
        f.write(DRIVER)
    env = envvars()
    fast = variant == 'plain'
    if variant == 'asan':
        env['VERIF_EXTRA_C'] = ('-fsanitize=address,undefined '
                                '-fsanitize=float-cast-overflow -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern -fno-omit-frame-pointer -O1 -g1 -w')
        env['VERIF_EXTRA_L'] = '-fsanitize=address,undefined'
    elif variant == 'tsan':
        # the extension modules only; the interpreter's locks are seen through the interceptors of libtsan
        env['VERIF_EXTRA_C'] = '-fsanitize=thread -fno-omit-frame-pointer -O1 -g1 -w'
        env['VERIF_EXTRA_L'] = '-fsanitize=thread'
    elif variant == 'portable':
        # no SIMD paths compiled in, 128-bit arithmetic emulated
        env['RANDOMGEN_NO_SSE2'] = '1'
        if base:
            env['VERIF_ONLY_EXT'] = PORTABLE
            for d, _, fs in os.walk(os.path.join(base, 'randomgen')):
                for f in fs:
                    if f.endswith('.so') and f.split('.')[0] not in PORTABLE.split():
                        shutil.copy2(os.path.join(d, f), os.path.join(dst, os.path.relpath(d, base), f))
        env['VERIF_EXTRA_C'] = ('-DPCG_FORCE_EMULATED_128BIT_MATH=1 -DR123_USE_GNU_UINT128=0 '
                                '-DR123_USE_MULHILO64_ASM=0 -DR123_USE_MULHILO64_C99=1 -w')
    elif variant != 'plain':
        raise ValueError(variant)
    log = log or os.path.join(dst, '_verif_build.log')
    with open(log, 'wb') as lf:
        rc = 1
        if fast:
            # compile under the path /repo in a private mount namespace, so that the compiler
            # cache shipped with the sandbox answers for unchanged files; falls back below
            rc = subprocess.run(['unshare', '-Urm', 'bash', '-c',
                                 'mount --bind "$1" "$2" && cd "$2" && exec python _verif_build.py', 'x', dst, REPO],
                                stdout=lf, stderr=lf, env=env).returncode
        if rc != 0:
            env['CCACHE_NOHASHDIR'] = '1'
            rc = subprocess.run(['python', '_verif_build.py'], cwd=dst, stdout=lf, stderr=lf, env=env).returncode
    if rc != 0:
        sys.stderr.write(open(log, errors='replace').read()[-3000:])
        raise RuntimeError('build failed')
    return dst


def over(dst, ext, header, log=None):
    """rebuild one extension of a finished plain build with a header forced into its units (fault injection)"""
    env = envvars({'VERIF_ONLY_EXT': ext, 'VERIF_EXTRA_C': f'-include {header} -w', 'CCACHE_NOHASHDIR': '1'})
    log = log or os.path.join(dst, '_verif_build2.log')
    with open(log, 'wb') as lf:
        rc = subprocess.run(['python', '_verif_build.py'], cwd=dst, stdout=lf, stderr=lf, env=env).returncode
    if rc != 0:
        sys.stderr.write(open(log, errors='replace').read()[-3000:])
        raise RuntimeError('build failed')


ADDON = r'''
import sys, os, numpy
from setuptools import setup, Extension
from Cython.Build import cythonize
name = sys.argv[1]
e = Extension(name, [name + '.pyx'], include_dirs=[numpy.get_include(), '.', 'randomgen', 'randomgen/src'],
              extra_compile_args=['-O1', '-w'], define_macros=[('NPY_NO_DEPRECATED_API', '0')])
sys.argv = ['setup.py', '-q', 'build_ext', '--inplace', '--force']
setup(name=name, ext_modules=cythonize([e], compiler_directives={'language_level': '3'}), py_modules=[])
'''


def addon(dst, pyx, log=None):
    """build a Cython harness module against a finished build"""
    name = os.path.basename(pyx)[:-4]
    shutil.copy2(pyx, os.path.join(dst, name + '.pyx'))
    with open(os.path.join(dst, '_verif_addon.py'), 'w') as f:
        f.write(ADDON)
    log = log or os.path.join(dst, '_verif_addon.log')
    with open(log, 'wb') as lf:
        rc = subprocess.run(['python', '_verif_addon.py', name], cwd=dst, stdout=lf, stderr=lf,
                            env=envvars({'CCACHE_NOHASHDIR': '1'})).returncode
    if rc != 0:
        sys.stderr.write(open(log, errors='replace').read()[-3000:])
        raise RuntimeError('harness build failed')
