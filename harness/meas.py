"""Running measurements and checking the shape of what they return."""
import warnings

import numpy as np

from core import Violation, check, close, quiet_fds


def call(func, *args, **kwargs):
    """Call a measurement with warnings and terminal output silenced."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with quiet_fds():
            return func(*args, **kwargs)


def need(res, keys, what):
    check(isinstance(res, dict), f'{what}: result is {type(res).__name__}')
    for k in keys:
        check(k in res, f'{what}: result has no {k!r} (has {sorted(res)})')


def arr(res, key, n, what):
    a = np.asarray(res[key])
    check(a.shape == (n,), f'{what}: {key} has shape {a.shape}, not ({n},)')
    return a


def twopt(res, what, n, space):
    keys = ['kbin', 'keff', 'nmodes', 'pk_raw', 'pk_shot'] \
        if space == 'fourier' else ['rbin', 'reff', 'npairs', 'xi']
    need(res, keys, what)
    return {k: arr(res, k, n, what) for k in keys}


def threept(res, what, n, space):
    if space == 'fourier':
        keys = ['k1_bin', 'k1_eff', 'nmodes_1', 'k2_bin', 'k2_eff',
                'nmodes_2', 'bk_raw', 'bk_shot']
    else:
        keys = ['r1_bin', 'r1_eff', 'npairs_1', 'r2_bin', 'r2_eff',
                'npairs_2', 'zeta_raw', 'zeta_shot']
    need(res, keys, what)
    return {k: arr(res, k, n, what) for k in keys}


def compare_coords(got, ref, prefix, space):
    c, e, n = ('kbin', 'keff', 'nmodes') if space == 'fourier' else \
        ('rbin', 'reff', 'npairs')
    rn = 'nmodes' if space == 'fourier' else 'npairs'
    if 'bin' in ref:
        close(got[c], ref['bin'], f'{prefix} bin centres', rtol=1e-9)
    if not np.array_equal(np.asarray(got[n]), ref[rn]):
        raise Violation(f'{prefix} {n}: got {list(got[n])}, '
                        f'expected {list(ref[rn])}')
    close(got[e], ref[e if e in ref else 'eff'],
          f'{prefix} effective coordinate', rtol=1e-9)
