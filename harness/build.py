"""Build the code under test from /repo's working tree into a private cache.

Nothing is written below /repo: sources are copied (tracked and untracked,
build products excluded), Cython and g++ run on the copy, and the result is
keyed by the content of every copied file, so that a check always runs what
/repo contains now.

Targets: ``py`` (importable package), ``prog`` (C++ program),
``asan`` (C++ program with AddressSanitizer and UBSan), ``tsan`` (C++ program
with ThreadSanitizer, on the OpenMP runtime of cpp/gomp.cpp), ``drv`` (C
interface to the C++ library, see cpp/driver.cpp).
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

REPO = Path(os.environ.get('TRV_VERIF_REPO', '/repo'))
VERIF = Path(__file__).resolve().parent.parent
CACHE = Path(os.environ.get('TRV_VERIF_CACHE', VERIF / '.build'))
SKIP_SUFFIX = {'.so', '.o', '.a', '.d', '.pyc', '.pyd'}
VERSION = '7'
KEEP = 6
DRIVER = VERIF / 'harness' / 'cpp' / 'driver.cpp'
RUNTIME = VERIF / 'harness' / 'cpp' / 'gomp.cpp'
WATCH = VERIF / 'harness' / 'cpp' / 'watch.cpp'
WRAPPED = ['gsl_spline_eval', 'gsl_spline_eval_e', 'gsl_interp_eval']
# what the targets need beyond the sources may be missing after a change
OPTIONAL = {'drv', 'tsan'}


class BuildError(Exception):
    pass


def source_files():
    """Every source file of the package and of the apps."""
    out = []
    for top in ('src/triumvirate', 'apps'):
        base = REPO / top
        if not base.exists():
            continue
        for path in sorted(base.rglob('*')):
            if not path.is_file() or path.suffix in SKIP_SUFFIX:
                continue
            if '__pycache__' in path.parts:
                continue
            rel = path.relative_to(REPO)
            # generated by Cython beside the .pyx
            if path.suffix in ('.cpp', '.c') \
                    and path.with_suffix('.pyx').exists():
                continue
            out.append(rel)
    return out


def tree_key(files):
    h = hashlib.sha256()
    h.update(VERSION.encode())
    h.update(sys.version.encode())
    h.update(DRIVER.read_bytes())
    h.update(RUNTIME.read_bytes())
    h.update(WATCH.read_bytes())
    for rel in files:
        h.update(str(rel).encode() + b'\0')
        h.update((REPO / rel).read_bytes())
        h.update(b'\0')
    return h.hexdigest()[:20]


def _run(cmd, cwd, env):
    proc = subprocess.run(
        cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, text=True
    )
    if proc.returncode:
        raise BuildError(
            f"{' '.join(map(str, cmd))}\n{proc.stdout[-4000:]}"
        )
    return proc.stdout


def _env(root):
    env = dict(os.environ)
    env['PATH'] = '/opt/venv/bin:/usr/lib/ccache:' + env.get('PATH', '')
    env.setdefault('HOME', '/root')
    env['CCACHE_DIR'] = os.environ.get('CCACHE_DIR', '/opt/ccache')
    env['CCACHE_BASEDIR'] = str(root)
    env['CCACHE_NOHASHDIR'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env.pop('OMP_NUM_THREADS', None)
    return env


def _prune(current):
    if not CACHE.exists():
        return
    dirs = sorted(
        (p for p in CACHE.iterdir() if p.is_dir() and p.name != current),
        key=lambda p: p.stat().st_mtime, reverse=True
    )
    for path in dirs[KEEP:]:
        shutil.rmtree(path, ignore_errors=True)


def build(targets):
    """Build `targets` and return the root directory of the build."""
    files = source_files()
    key = tree_key(files)
    root = CACHE / key
    CACHE.mkdir(parents=True, exist_ok=True)
    with open(CACHE / f'{key}.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not (root / 'copied').exists():
            shutil.rmtree(root, ignore_errors=True)
            for rel in files:
                dest = root / 'tree' / rel
                dest.parent.mkdir(parents=True, exist_ok=True)
                shutil.copyfile(REPO / rel, dest)
            (root / 'copied').write_text('')
        todo = [t for t in targets if not (root / f'{t}.done').exists()]
        extra = OPTIONAL.intersection(todo)
        if extra and len(targets) > 1:
            # without the interface to internal classes, only the checks
            # through it are left out
            others = [t for t in todo if t not in extra]
            try:
                _build(root, todo)
            except BuildError as exc:
                if others:
                    _build(root, others)
                print(f'{sorted(extra)} cannot be built; checks through them '
                      f'are left out:\n{str(exc)[-1500:]}')
        elif todo:
            _build(root, todo)
        os.utime(root)
    _prune(key)
    for path in CACHE.glob('*.lock'):
        if not (CACHE / path.stem).exists():
            path.unlink(missing_ok=True)
    return root


def _build(root, todo):
    tree = root / 'tree'
    pkg = tree / 'src' / 'triumvirate'
    inc = pkg / 'include'
    env = _env(root)
    cxx = 'g++'
    base = ['-std=c++17', '-fopenmp', '-DTRV_USE_OMP', '-DTRV_USE_FFTWOMP',
            '-w', f'-I{inc}']
    libs = ['-lgsl', '-lgslcblas', '-lm', '-lfftw3', '-lfftw3_omp',
            '-fopenmp']
    cppsrc = sorted((pkg / 'src').glob('*.cpp'))
    t0 = time.time()

    with ThreadPoolExecutor(max(os.cpu_count() or 4, 4)) as pool:
        jobs = []

        def compile_(src, obj, flags):
            obj.parent.mkdir(parents=True, exist_ok=True)
            _run([cxx, '-c', *flags, str(src), '-o', str(obj)], root, env)
            return obj

        links = []
        if 'py' in todo:
            import numpy
            npinc = numpy.get_include()
            pyinc = sysconfig.get_paths()['include']
            suffix = sysconfig.get_config_var('EXT_SUFFIX')
            flags = base + ['-fPIC', '-DTRV_EXTCALL', f'-I{pyinc}',
                            f'-I{npinc}',
                            '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION']
            pyx = sorted(pkg.glob('*.pyx'))

            def ext(path, flags=flags):
                cpp = root / 'gen' / (path.stem + '.cpp')
                cpp.parent.mkdir(parents=True, exist_ok=True)
                # cython needs the package layout: run in tree/src
                _run(['cython', '--cplus', '-3',
                      '-X', 'c_string_encoding=utf-8', '-X', 'embedsignature=True',
                      str(path.relative_to(tree / 'src')),
                      '-o', str(cpp)], tree / 'src', env)
                return compile_(
                    cpp, root / 'obj_py' / (path.stem + '.o'),
                    flags + ['-O1', '-g0', f'-I{pkg}',
                             '-fno-strict-overflow', '-DNDEBUG']
                )
            pyjobs = {p.stem: pool.submit(ext, p) for p in pyx}
            libjobs = [
                pool.submit(compile_, s, root / 'obj_lib' / (s.stem + '.o'),
                            flags + ['-O2', '-DNDEBUG', '-g0'])
                for s in cppsrc
            ]
            jobs += list(pyjobs.values()) + libjobs

            def link_py():
                objs = [str(j.result()) for j in libjobs]
                lib = root / 'obj_lib' / 'libtrv.a'
                lib.unlink(missing_ok=True)
                _run(['ar', 'rcs', str(lib), *objs], root, env)
                for stem, job in pyjobs.items():
                    _run([cxx, '-shared', str(job.result()), str(lib),
                          *libs, '-o', str(pkg / (stem + suffix))], root, env)
            links.append(link_py)
        if 'drv' in todo:
            import numpy
            pyinc = sysconfig.get_paths()['include']
            # the flags of the Python library, so that ccache can share
            flags = base + ['-fPIC', '-DTRV_EXTCALL', f'-I{pyinc}',
                            f'-I{numpy.get_include()}',
                            '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION',
                            '-O2', '-DNDEBUG', '-g0']
            djobs = [
                pool.submit(compile_, s, root / 'obj_drv' / (s.stem + '.o'),
                            flags)
                for s in cppsrc
            ] + [pool.submit(compile_, DRIVER, root / 'obj_drv' / 'driver.o',
                             flags)]
            jobs += djobs

            def link_drv():
                _run([cxx, '-shared', *[str(j.result()) for j in djobs],
                      *libs, '-o', str(root / 'libdrv.so')], root, env)
            links.append(link_drv)
        for name, extra in (
            ('prog', ['-O2', '-g0']),
            ('asan', ['-O1', '-g', '-fno-omit-frame-pointer',
                      '-fsanitize=address,undefined',
                      '-fno-sanitize=vptr',
                      '-fno-sanitize-recover=undefined']),
            ('tsan', ['-O1', '-g1', '-fsanitize=thread',
                      '-UTRV_USE_FFTWOMP']),
        ):
            if name not in todo:
                continue
            flags = base + extra + [
                '-D__TRV_VERSION__="0.5.0"', '-D__TZOFFSET__="+0000"'
            ]
            srcs = cppsrc + [pkg / 'main' / 'triumvirate.cpp']
            ojobs = [
                pool.submit(compile_, s, root / f'obj_{name}' /
                            (s.parent.name + '_' + s.stem + '.o'), flags)
                for s in srcs
            ]
            jobs += ojobs
            sanflags = [f for f in extra if f.startswith('-f')]
            linked = libs
            if name == 'tsan':
                # without libgomp, nor the FFTW library that uses it
                ojobs.append(pool.submit(
                    compile_, RUNTIME, root / 'obj_tsan' / 'gomp.o',
                    ['-O1', '-g']))
                ojobs.append(pool.submit(
                    compile_, WATCH, root / 'obj_tsan' / 'watch.o',
                    ['-O1', '-g', '-fsanitize=thread']))
                jobs += ojobs[-2:]
                sanflags = sanflags + [f'-Wl,--wrap={w}' for w in WRAPPED]
                linked = [x for x in libs if x not in (
                    '-fopenmp', '-lfftw3_omp')]

            def link_prog(ojobs=ojobs, name=name, sanflags=sanflags,
                          linked=linked):
                _run([cxx, *[str(j.result()) for j in ojobs], *linked,
                      *sanflags, '-o', str(root / f'triumvirate_{name}')],
                     root, env)
            links.append(link_prog)
        for job in jobs:
            job.result()
        for link in links:
            link()
    for name in todo:
        (root / f'{name}.done').write_text(f'{time.time() - t0:.1f}')
    for path in root.glob('obj_*'):
        shutil.rmtree(path, ignore_errors=True)
    shutil.rmtree(root / 'gen', ignore_errors=True)


if __name__ == '__main__':
    t_ = time.time()
    print(build(sys.argv[1:] or ['py', 'prog']), f'{time.time() - t_:.1f}s')
