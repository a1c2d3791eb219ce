"""Shared pieces: sub-check declaration, oracle helpers, violation type."""
import contextlib
import ctypes
import math
import os
import shutil
import sys
import tempfile
from pathlib import Path

import numpy as np


class Violation(Exception):
    """The oracle disagrees with the code under test."""


class HarnessError(Exception):
    """The harness itself is wrong; never a violation."""


class Skip(Exception):
    """The case cannot be decided with what could be built."""


class Sub:
    """One generated check.

    `strategy` is a zero-argument callable that returns a Hypothesis strategy
    of JSON-able cases; `run(case)` decides one case, raises
    :class:`Violation`, and otherwise returns a dict with `nontrivial`
    (bool) and optionally `labels` (list of str).
    """

    def __init__(self, name, strategy, run, quick, thorough,
                 shards=1, tshards=8, rule='', env=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.tshards = tshards
        self.rule = rule
        self.env = env or {}


ROOT = None       # build root, set by the worker


def prog_path(name='prog'):
    return str(Path(ROOT) / f'triumvirate_{name}')


def ok(nontrivial=True, *labels):
    return {'nontrivial': bool(nontrivial), 'labels': list(labels)}


def check(cond, msg):
    if not cond:
        raise Violation(msg)


def _short(a):
    a = np.asarray(a)
    return np.array2string(
        a.ravel()[:8], precision=10, separator=', ', threshold=8
    ) + (f' ... shape {a.shape}' if a.size > 8 else '')


def close(actual, expected, msg, rtol=1e-8, scale=None, atol=0.):
    """Compare arrays with |a-e| <= rtol*max(|e|, scale) + atol."""
    a = np.asarray(actual)
    e = np.asarray(expected)
    if a.shape != e.shape:
        raise Violation(f'{msg}: shape {a.shape} instead of {e.shape}')
    if a.size == 0:
        return
    if a.dtype.kind not in 'iufcb':
        raise Violation(f'{msg}: dtype {a.dtype}')
    nan_a, nan_e = np.isnan(a), np.isnan(e)
    if np.any(nan_a != nan_e):
        raise Violation(
            f'{msg}: not-a-number mismatch: got {_short(a)}, '
            f'expected {_short(e)}'
        )
    mag = np.abs(np.where(nan_e, 0, e))
    if scale is None:
        s = mag
    elif scale == 'max':
        s = np.maximum(mag, mag.max() if mag.size else 0)
    else:
        s = np.maximum(mag, scale)
    with np.errstate(invalid='ignore'):
        diff = np.abs(a - e)
        same = (a == e) | nan_e
        bad = ~same & ~(diff <= rtol * s + atol)
    if np.any(bad):
        idx = tuple(int(i[0]) for i in np.nonzero(np.atleast_1d(bad)))
        av = np.atleast_1d(a)[idx]
        ev = np.atleast_1d(e)[idx]
        raise Violation(
            f'{msg}: at {idx} got {av!r}, expected {ev!r} '
            f'({int(bad.sum())} of {bad.size} differ)'
        )


def equal(actual, expected, msg):
    a, e = np.asarray(actual), np.asarray(expected)
    if a.shape != e.shape or not np.array_equal(a, e, equal_nan=(
            a.dtype.kind in 'fc' and e.dtype.kind in 'fc')):
        raise Violation(f'{msg}: got {_short(a)}, expected {_short(e)}')


@contextlib.contextmanager
def scratch():
    """Scratch directory, made current, removed afterwards."""
    old = os.getcwd()
    path = tempfile.mkdtemp(prefix='case', dir=os.environ['TRV_SCRATCH'])
    os.chdir(path)
    try:
        yield Path(path)
    finally:
        os.chdir(old)
        shutil.rmtree(path, ignore_errors=True)


_gomp = None


def set_threads(n):
    """Set the OpenMP thread count used by the extension modules."""
    global _gomp
    if _gomp is None:
        _gomp = ctypes.CDLL('libgomp.so.1')
    _gomp.omp_set_num_threads(int(n))


@contextlib.contextmanager
def quiet_fds():
    """Silence everything written to the process's stdout and stderr."""
    sys.stdout.flush()
    sys.stderr.flush()
    saved = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    try:
        os.dup2(null, 1)
        os.dup2(null, 2)
        yield
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(saved[0], 1)
        os.dup2(saved[1], 2)
        for fd in (*saved, null):
            os.close(fd)


def in_code_under_test(exc):
    """Whether the innermost Python-visible frame belongs to the package."""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    if last is None:
        return False
    tree = str(Path(ROOT) / 'tree')
    if last.startswith(tree):
        return True
    # Cython frames report the source path relative to tree/src
    return last.startswith('triumvirate/') or (
        '/src/triumvirate/' in last and last.endswith(('.pyx', '.pxd', '.py'))
    )


def touches_code_under_test(exc):
    """Whether any frame *below the last harness frame* is the package's.

    An exception raised inside numpy that the package called belongs to the
    package; an exception raised inside numpy that the harness called does
    not.
    """
    tb = exc.__traceback__
    tree = str(Path(ROOT) / 'tree')
    here = str(Path(__file__).resolve().parent)
    owner = None
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(here):
            owner = 'harness'
        elif name.startswith(tree) or name.startswith('triumvirate/') or (
                '/src/triumvirate/' in name):
            owner = 'code'
        elif name.startswith('src/triumvirate'):
            owner = 'code'
        tb = tb.tb_next
    return owner == 'code'


def expect_raises(types, func, msg):
    try:
        res = func()
    except types as exc:
        return exc
    except Skip:
        raise
    except Exception as exc:
        raise Violation(
            f'{msg}: raised {type(exc).__name__}: {exc} instead'
        ) from exc
    raise Violation(f'{msg}: accepted (returned {type(res).__name__})')


def isclose(a, b, rtol=1e-9, atol=0.):
    return math.isclose(a, b, rel_tol=rtol, abs_tol=atol)
