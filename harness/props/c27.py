"""C27: special functions against exact and multiple-precision definitions."""
import math
from fractions import Fraction

import mpmath
import numpy as np
from hypothesis import strategies as st

import drv
import gen
from core import Sub, Violation, check, ok

TARGETS = ['drv']
ASSUMPTIONS = [
    'Spherical Bessel functions are interpolated by a natural cubic spline in '
    'steps of 0.05, so that they are accurate to 1e-4 in the first few steps '
    'and to 2e-7 elsewhere below the changeover at max(1000, ell^2).',
    'Azimuthal angles come from an arc cosine, good to about 2e-8 near the x '
    'axis; vectors shorter than 1e-9 count as zero.',
]
mpmath.mp.dps = 40


# -- Wigner 3-j symbols -----------------------------------------------------------

def exact_3j(j1, j2, j3, m1, m2, m3):
    """Racah's formula: (sign and sum, squared prefactor), exactly."""
    f = math.factorial
    if m1 + m2 + m3 or j3 > j1 + j2 or j3 < abs(j1 - j2) or \
            abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3:
        return 0.
    total = Fraction(0)
    for t in range(0, j1 + j2 - j3 + 1):
        d = [t, j3 - j2 + t + m1, j3 - j1 + t - m2, j1 + j2 - j3 - t,
             j1 - t - m1, j2 - t + m2]
        if min(d) < 0:
            continue
        den = 1
        for i in d:
            den *= f(i)
        total += Fraction((-1)**t, den)
    square = Fraction(
        f(j1 + j2 - j3)*f(j1 - j2 + j3)*f(-j1 + j2 + j3), f(j1 + j2 + j3 + 1))
    for j, m in ((j1, m1), (j2, m2), (j3, m3)):
        square *= f(j - m)*f(j + m)
    v = mpmath.sqrt(mpmath.mpf(square.numerator)/square.denominator)
    v *= mpmath.mpf(total.numerator)/total.denominator
    return float(v)*(-1)**((j1 - j2 - m3) % 2)


@st.composite
def wigner_strategy(draw):
    top = draw(gen.scalars(3, 8, 20))
    j = [draw(st.integers(0, top)) for _ in range(2)]
    kind = draw(gen.scalars('allowed', 'allowed', 'allowed', 'zero', 'free'))
    if kind == 'free':
        j.append(draw(st.integers(0, top)))
        return {'j': j, 'm': [draw(st.integers(-top - 1, top + 1))
                              for _ in range(3)], 'kind': kind}
    j.append(draw(st.integers(abs(j[0] - j[1]), j[0] + j[1])))
    if kind == 'zero':
        return {'j': j, 'm': [0, 0, 0], 'kind': kind}
    m1 = draw(st.integers(-j[0], j[0]))
    lo, hi = max(-j[1], -j[2] - m1), min(j[1], j[2] - m1)
    m2 = draw(st.integers(lo, hi)) if lo <= hi else draw(
        st.integers(-j[1], j[1]))
    return {'j': j, 'm': [m1, m2, -m1 - m2], 'kind': kind}


def run_wigner(case):
    j, m = case['j'], case['m']
    want = exact_3j(*j, *m)
    got = drv.wigner(*j, *m)
    if want == 0 and (sum(m) or max(j) > sum(j) - max(j) or any(
            abs(a) > b for a, b in zip(m, j))):
        check(got == 0., f'3-j symbol {j} {m} = {got} breaks selection rules')
    tol = 1e-12*10**(sum(j)/12)
    check(abs(got - want) <= tol, f'3-j symbol {j} {m} = {got}, not {want}')
    return ok(want != 0, case['kind'])


# -- spherical harmonics ------------------------------------------------------------

def legendre_derivative(ell, m):
    """Integer coefficients c_k, d: d^m P_ell/dx^m = sum c_k x^k / d."""
    c = {}
    for k in range(ell//2 + 1):
        p = ell - 2*k
        if p < m:
            continue
        num = (-1)**k*math.comb(ell, k)*math.comb(2*ell - 2*k, ell)
        c[p - m] = num*math.factorial(p)//math.factorial(p - m)
    return c, 2**ell


def reduced_ylm(ell, m, pos):
    """sqrt(4 pi/(2 ell + 1)) conj(Y_ell^m), from solid harmonics."""
    if ell == 0 and m == 0:
        return 1. + 0j
    x, y, z = (mpmath.mpf(float(v)) for v in pos)
    r = mpmath.sqrt(x*x + y*y + z*z)
    if r < 1e-9:
        return 0j
    a = abs(m)
    c, d = legendre_derivative(ell, a)
    mu = z/r
    q = sum(v*mu**p for p, v in c.items())/d
    norm = mpmath.sqrt(mpmath.mpf(math.factorial(ell - a))
                       / math.factorial(ell + a))
    s = mpmath.mpc(x, -y)/r
    v = (-1)**a*norm*q*s**a
    if m < 0:
        v = (-1)**a*mpmath.conj(v)
    return complex(v)


COORD = gen.scalars(0., -0., 1., -1., 1e-7, -1e-7, 1e-10, 3., -2.5, 1e4, 1e-3)


@st.composite
def ylm_strategy(draw):
    ell = draw(st.integers(0, draw(gen.scalars(2, 5, 12))))
    one = st.one_of(COORD, st.floats(-1., 1.), st.floats(-1e3, 1e3))
    return {'ell': ell, 'm': draw(st.integers(-ell, ell)),
            'pos': [draw(one) for _ in range(3)],
            'scale': draw(gen.scalars(1., 1., 0.01, 1e3))}


def run_ylm(case):
    ell, m = case['ell'], case['m']
    pos = [v*case['scale'] for v in case['pos']]
    r = math.sqrt(sum(v*v for v in pos))
    if 5e-10 < r < 2e-9:
        return ok(False, 'threshold')
    want = reduced_ylm(ell, m, pos)
    got = drv.ylm(ell, m, pos)
    rho = math.hypot(pos[0], pos[1])
    tol = 1e-12*(1 + ell)**1.5
    if rho > 0 and r > 1e-9:     # rounding of the two cosines
        tol += 2e-15*(ell/max(rho/r, 1e-8)
                      + abs(m)*abs(want)/max(abs(pos[1])/rho, 1e-8))
        if rho < 2e-9:
            tol += 2*abs(want)
    check(abs(got - want) <= tol, f'reduced harmonic {ell} {m} of {pos} is '
          f'{got}, not {want}')
    # sum rule over all orders
    if r > 1e-9:
        total = sum(abs(drv.ylm(ell, i, pos))**2 for i in range(-ell, ell + 1))
        check(abs(total - 1) < 1e-10, f'sum over orders {total} for {ell} '
              f'at {pos}')
    return ok(ell > 0 and r > 0, 'zero' if r == 0 else 'axis'
              if 0. in pos else 'general')


@st.composite
def mesh_strategy(draw):
    ell = draw(st.integers(0, 6))
    return {'ell': ell, 'm': draw(st.integers(-ell, ell)),
            'n': [draw(st.integers(1, 6)) for _ in range(3)],
            'box': [draw(gen.scalars(1., 10., 1000., 333., 2.5))
                    for _ in range(3)],
            'space': draw(st.booleans())}


def run_mesh(case):
    n, box = case['n'], case['box']
    got = drv.ylm_mesh(case['ell'], case['m'], box, n, case['space'])
    for i in np.ndindex(*n):
        vec = []
        for a in range(3):
            u = i[a] if i[a] < (n[a] + 1)//2 else i[a] - n[a]
            vec.append(u*(box[a]/n[a] if case['space']
                          else 2*math.pi/box[a]))
        want = drv.ylm(case['ell'], case['m'], vec)
        check(abs(got[i] - want) <= 1e-7, f'cell {i}: {got[i]}, not {want} '
              f'at {vec}')
        true = reduced_ylm(case['ell'], case['m'], vec)
        check(abs(want - true) <= 1e-6, f'{want}, not {true} at {vec}')
    return ok(case['ell'] > 0 and max(n) > 1, 'configuration'
              if case['space'] else 'Fourier', f"l={case['ell']}")


# -- spherical Bessel functions ------------------------------------------------------

@st.composite
def bessel_strategy(draw):
    ell = draw(st.integers(0, draw(gen.scalars(3, 8, 12, 36))))
    split = max(1000, ell*ell)
    one = st.one_of(
        st.floats(0, 2), st.floats(0, 30), st.floats(0, 1000),
        st.floats(split - 0.2, split + 0.2), st.floats(split, 8000),
        gen.scalars(0., 0.05, 0.025, 0.075, 1., float(split),
                    math.nextafter(split, 0), float(max(ell, 1))))
    return {'ell': ell, 'x': draw(st.lists(one, min_size=1, max_size=12))}


def jl(ell, x):
    """Spherical Bessel function by series, or recurrence in high precision."""
    x = mpmath.mpf(x)
    if x == 0:
        return mpmath.mpf(ell == 0)
    if x < ell + 5:
        term = mpmath.mpf(1)
        for i in range(ell):
            term *= x/(2*i + 3)
        total, k = term, 0
        while abs(term) > abs(total)*mpmath.mpf(10)**-35 and k < 400:
            k += 1
            term *= -x*x/2/(k*(2*ell + 2*k + 1))
            total += term
        return total
    a, b = mpmath.sin(x)/x, mpmath.sin(x)/x**2 - mpmath.cos(x)/x
    if ell == 0:
        return a
    for i in range(1, ell):
        a, b = b, (2*i + 1)/x*b - a
    return b


def run_bessel(case):
    ell = case['ell']
    got = drv.sjl(ell, case['x'])
    split = max(1000, ell*ell)
    for x, g in zip(case['x'], got):
        want = float(jl(ell, x))
        if x >= split:
            tol = 1e-10
        else:
            tol = 2e-7 + 2e-4*0.268**(x/0.05) + \
                2e-4*0.268**((split - x)/0.05)
        check(abs(g - want) <= tol, f'j_{ell}({x!r}) = {g}, not {want}')
    return ok(True, f'l={min(ell, 5)}', 'beyond'
              if max(case['x']) >= split else 'interpolated')


# -- gamma functions -------------------------------------------------------------------

@st.composite
def gamma_strategy(draw):
    return {'re': draw(st.one_of(st.floats(-8, 12), gen.scalars(
        0.5, 1., 2., 3.5, 20., 0.499999))),
            'im': draw(st.one_of(st.floats(-15, 15), gen.scalars(
                0., 1e-3, 1., 30., -40.)))}


def pole(z, eps=1e-3):
    return z.real < 0.5 and abs(z - round(z.real)) < eps


def angle(a):
    return abs((a + math.pi) % (2*math.pi) - math.pi)


def run_gamma(case):
    z = complex(case['re'], case['im'])
    if pole(z):
        return ok(False, 'pole')
    g, lnr, theta = drv.gamma(z)
    want = complex(mpmath.gamma(z))
    check(abs(g - want) <= 1e-11*abs(want)*(1 + abs(z.imag)),
          f'Gamma({z}) = {g}, not {want}')
    ln = mpmath.loggamma(z)
    check(abs(lnr - float(ln.real)) <= 1e-10*(1 + abs(lnr)),
          f'ln|Gamma({z})| = {lnr}, not {float(ln.real)}')
    check(angle(theta - float(ln.imag)) <= 1e-10*(1 + abs(z)),
          f'arg Gamma({z}) = {theta}, not {float(ln.imag)}')
    return ok(True, 'reflected' if z.real < 0.5 else 'direct')


@st.composite
def ratio_strategy(draw):
    return {'mu': draw(st.one_of(st.floats(0, 12), gen.scalars(
        0., 0.5, 1.5, 2.5, 10.5))),
            're': draw(st.one_of(st.floats(-3, 3), gen.scalars(0., 1., -1.5))),
            'im': draw(st.one_of(
                st.floats(-120, 120), st.floats(95, 105), st.floats(-2e3, 2e3),
                gen.scalars(0., 99.99999, 100., -100., 500.)))}


def run_ratio(case):
    mu, nu = case['mu'], complex(case['re'], case['im'])
    zp, zm = (mu + 1 + nu)/2, (mu + 1 - nu)/2
    if pole(zp) or pole(zm):
        return ok(False, 'pole')
    got = drv.gamma_ratio(mu, nu)
    want = complex(mpmath.loggamma(zp) - mpmath.loggamma(zm))
    size = 1 + abs(zp)*math.log(2 + abs(zp))
    check(abs(got.real - want.real) <= 2e-11*size,
          f'ln|ratio| of {mu}, {nu}: {got.real}, not {want.real}')
    check(angle(got.imag - want.imag) <= 2e-11*size,
          f'phase of {mu}, {nu}: {got.imag}, not {want.imag} mod 2 pi')
    return ok(True, 'asymptotic' if nu.imag >= 100 else 'direct')


CHECKS = [
    Sub('wigner', wigner_strategy, run_wigner, quick=4000, thorough=200000,
        rule='Wigner 3-j symbols against exact rational arithmetic; '
        'non-trivial when not zero'),
    Sub('ylm', ylm_strategy, run_ylm, quick=3000, thorough=150000,
        rule='reduced spherical harmonics at points against 40-digit '
        'arithmetic; non-trivial for a non-zero degree and vector'),
    Sub('mesh', mesh_strategy, run_mesh, quick=300, thorough=10000,
        rule='tabulated harmonics against pointwise ones; non-trivial for a '
        'non-zero degree'),
    Sub('bessel', bessel_strategy, run_bessel, quick=400, thorough=12000,
        rule='interpolated spherical Bessel functions against 40-digit '
        'arithmetic'),
    Sub('gamma', gamma_strategy, run_gamma, quick=2000, thorough=100000,
        rule='gamma function of complex argument; non-trivial off the poles'),
    Sub('ratio', ratio_strategy, run_ratio, quick=2000, thorough=100000,
        rule='ratios of gamma functions; non-trivial off the poles'),
]
