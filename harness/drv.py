"""ctypes view of the C interface to the C++ library (cpp/driver.cpp)."""
import ctypes
from pathlib import Path

import numpy as np

import core

_lib = None


class DriverError(Exception):
    """An exception thrown by the C++ library."""


def available():
    return (Path(core.ROOT) / 'libdrv.so').exists()


def lib():
    global _lib
    if _lib is None:
        if not available():
            raise core.Skip
        _lib = ctypes.CDLL(str(Path(core.ROOT) / 'libdrv.so'))
        _lib.drv_error.restype = ctypes.c_char_p
        _lib.drv_cat_new.restype = ctypes.c_void_p
    return _lib


def _d(a):
    return a.ctypes.data_as(ctypes.POINTER(ctypes.c_double))


def _i(a):
    return a.ctypes.data_as(ctypes.POINTER(ctypes.c_int))


def _arr(v):
    return np.ascontiguousarray(v, dtype=float)


def _ok(rc):
    if rc:
        raise DriverError(lib().drv_error().decode(errors='replace'))


class Catalogue:
    def __init__(self):
        self.h = ctypes.c_void_p(lib().drv_cat_new())

    def close(self):
        lib().drv_cat_free(self.h)
        self.h = None

    def load(self, cols):
        a = np.ascontiguousarray(np.stack(cols), dtype=float)
        _ok(lib().drv_cat_load(self.h, a.shape[1], _d(a)))

    def read(self, path, columns, volume=0.):
        _ok(lib().drv_cat_file(self.h, str(path).encode(),
                                   columns.encode(), ctypes.c_double(volume)))

    def data(self):
        n = lib().drv_cat_size(self.h)
        out = np.empty((n, 7))
        lib().drv_cat_get(self.h, _d(out))
        return out

    def attrs(self):
        out = np.empty(11)
        lib().drv_cat_attrs(self.h, _d(out))
        return {'wtotal': out[0], 'wstotal': out[1], 'min': out[2:5],
                'max': out[5:8], 'span': out[8:]}

    def _call(self, name, *args):
        _ok(getattr(lib(), name)(self.h, *args))

    def offset(self, d):
        self._call('drv_cat_offset', _d(_arr(d)))

    def periodise(self, box):
        self._call('drv_cat_period', _d(_arr(box)))

    def centre(self, box, ref=None):
        self._call('drv_cat_centre', ref.h if ref else None, _d(_arr(box)))

    def pad(self, box, pad, ref=None):
        self._call('drv_cat_pad', ref.h if ref else None, _d(_arr(box)),
                   _d(_arr(pad)))

    def pad_grids(self, box, ngrid, pad, ref=None):
        n = np.ascontiguousarray(ngrid, dtype=np.int32)
        self._call('drv_cat_padgrid', ref.h if ref else None, _d(_arr(box)),
                   _i(n), _d(_arr(pad)))


def wigner(*j):
    a = np.array(j, dtype=np.int32)
    out = np.empty(1)
    _ok(lib().drv_wigner(_i(a), _d(out)))
    return out[0]


def ylm(ell, m, pos):
    out = np.empty(2)
    _ok(lib().drv_ylm(ell, m, _d(_arr(pos)), _d(out)))
    return complex(*out)


def ylm_mesh(ell, m, box, ngrid, space):
    n = np.ascontiguousarray(ngrid, dtype=np.int32)
    out = np.empty((int(np.prod(n)), 2))
    _ok(lib().drv_ylm_mesh(ell, m, _d(_arr(box)), _i(n), int(space),
                           _d(out)))
    return (out[:, 0] + 1j*out[:, 1]).reshape(tuple(n))


def sjl(ell, x):
    x = _arr(x)
    out = np.empty(len(x))
    _ok(lib().drv_sjl(ell, len(x), _d(x), _d(out)))
    return out


def gamma(z):
    out = np.empty(4)
    _ok(lib().drv_gamma(ctypes.c_double(z.real), ctypes.c_double(z.imag),
                        _d(out)))
    return complex(out[0], out[1]), out[2], out[3]


def gamma_ratio(mu, nu):
    out = np.empty(2)
    _ok(lib().drv_gamma_ratio(ctypes.c_double(mu), ctypes.c_double(nu.real),
                              ctypes.c_double(nu.imag), _d(out)))
    return complex(*out)


def extrap(option, a, n, lo=0., hi=0.):
    a = _arr(a)
    out = np.empty(len(a) + 2*n)
    _ok(lib().drv_extrap(option, len(a), _d(a), n, ctypes.c_double(lo),
                         ctypes.c_double(hi), _d(out)))
    return out


def check(a, lin=False, loglin=False, sign=False):
    a = _arr(a)
    return lib().drv_check(len(a), _d(a), int(lin), int(loglin), int(sign))


def argsort(a):
    a = np.ascontiguousarray(a, dtype=np.int32)
    out = np.empty(len(a), dtype=np.int32)
    _ok(lib().drv_argsort(len(a), _i(a), _i(out)))
    return out


def sbt(degree, bias, pts, a, pivot=1., lowring=True, extrap=0, expansion=2.,
        direction=0, nb=0):
    """C++ spherical Bessel transform: points, samples, pivot, logres, size."""
    pts = _arr(pts)
    a = np.ascontiguousarray(a, dtype=complex)
    out = np.zeros(len(pts), dtype=complex)
    post = np.zeros(len(pts))
    info = np.zeros(3)
    _ok(lib().drv_sbt(
        degree, bias, len(pts), _d(pts), ctypes.c_double(pivot), int(lowring),
        extrap, ctypes.c_double(expansion), direction, len(a), _d(a), nb,
        _d(out), _d(post), _d(info)))
    return post, out, info[0], info[1], int(info[2])


def params(src, out, copy, back, revalidate=False):
    """Print a parameter file as read, copied, and read back."""
    _ok(lib().drv_params(*(str(p).encode() for p in (src, out, copy, back)),
                         int(revalidate)))


# -- logs and progress bars ----------------------------------------------------

def log(limit, entries):
    """entries: (how, level, text, number)"""
    n = len(entries)
    text = (ctypes.c_char_p*n)(*(e[2].encode() for e in entries))
    ints = [(ctypes.c_int*n)(*(e[k] for e in entries)) for k in (0, 1, 3)]
    _ok(lib().drv_log(int(limit), n, ints[0], ints[1], text, ints[2]))


def bar(count, name, interval, index):
    n = len(index)
    _ok(lib().drv_bar(int(count), name.encode(), interval.encode(), n,
                      (ctypes.c_int*n)(*index)))


def elapsed(t):
    out = ctypes.create_string_buffer(64)
    _ok(lib().drv_elapsed(ctypes.c_double(t), out))
    return out.value.decode()
