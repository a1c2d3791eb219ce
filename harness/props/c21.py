"""C21: Hankel-type transforms against a direct sum and known integrals."""
import math

import mpmath
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline
from scipy.special import loggamma

import drv
import gen
from core import Sub, Violation, check, close, equal, expect_raises, ok

TARGETS = ['py', 'drv']
ASSUMPTIONS = [
    'Known integrals are recovered by the transform only where the sampled '
    'range covers the function: they are compared in the middle of the range '
    'for functions decaying at both ends.',
    'With lowring off and an even sample number, the transform drops the '
    'imaginary part of its Nyquist coefficient; the reference follows.',
]


# -- reference -------------------------------------------------------------------

def low_ringing(mu, q, delta, pivot):
    """Pivot making the Nyquist coefficient real (multiple of pi in phase)."""
    y = math.pi/2/delta
    phase = (loggamma((mu + 1 + q)/2 + 1j*y).imag
             + loggamma((mu + 1 - q)/2 + 1j*y).imag)
    if pivot > 0:
        turns = math.log(2/pivot)/delta + phase/math.pi
        return pivot*math.exp(delta*(turns - round(turns)))
    lnkr = math.log(2) + phase*delta/math.pi
    return math.exp(lnkr - math.floor(lnkr/delta)*delta)


def reference(mu, q, delta, pivot, a):
    """Biased Hankel transform of log-periodic samples, by a direct sum."""
    n = len(a)
    m = np.fft.fftfreq(n, 1./n)
    y = math.pi/(n*delta)
    u = np.exp(
        q*math.log(2) + loggamma((mu + 1 + q)/2 + 1j*m*y)
        - loggamma((mu + 1 - q)/2 - 1j*m*y)
        + 2j*m*y*math.log(2/pivot))
    if n % 2 == 0:
        u[n//2] = u[n//2].real
    phase = np.exp(-2j*np.pi*np.outer(m, np.arange(n))/n)
    return phase.T @ (u*(phase @ a))/n, np.abs(u).max()


def grid(case):
    return case['lo']*np.exp(case['delta']*np.arange(case['n']))


def expansion_size(n, factor):
    size = 1
    while size < factor*n:
        size *= 2
    return size


def samples(seed, n, kind):
    """Smooth samples; 'walk' keeps one sign, 'complex' and 'free' do not."""
    rng = np.random.default_rng(seed)
    if kind == 'walk':
        return (-1.)**(seed % 2)*np.exp(np.cumsum(rng.uniform(-.3, .3, n)))
    if kind == 'complex':
        return rng.normal(size=n) + 1j*rng.normal(size=n)
    if kind == 'spike':
        a = np.zeros(n)
        a[rng.integers(n)] = 3.
        return a
    return rng.normal(size=n)


def extend(a, n, option):
    """The documented extrapolation laws."""
    from triumvirate._arrayops import extrap_loglin_oscil
    up, down = np.arange(1, n + 1), np.arange(n, 0, -1)
    if option == 1:
        lo, hi = np.zeros(n), np.zeros(n)
    elif option == 2:
        lo, hi = np.full(n, a[0]), np.full(n, a[-1])
    elif option == 3:
        lo, hi = a[0] - (a[1] - a[0])*down, a[-1] + (a[-1] - a[-2])*up
    elif option == 4:
        lo, hi = a[0]*(a[0]/a[1])**down, a[-1]*(a[-1]/a[-2])**up
    else:
        return extrap_loglin_oscil(a, n)
    return np.concatenate([lo, a, hi])


def compare(got_k, got, want_k, want_b, size, what):
    """Transformed samples, with the power of k taken out again."""
    close(got_k, want_k, f'{what}: sample points', rtol=1e-9)
    close(np.asarray(got)/(2*np.pi/want_k)**1.5, want_b,
          f'{what}: samples', rtol=1e-9, scale=size)


@st.composite
def layout(draw, nmin=3, nmax=60, even=False):
    n = draw(st.integers(nmin, nmax))
    if even:
        n += n % 2
    return {
        'n': n, 'lo': draw(gen.scalars(1e-4, 1e-2, 1., 30.)),
        'delta': draw(gen.scalars(.01, .05, .1, .3, .5, 1.)),
        'pivot': draw(gen.scalars(1., 1., .3, 7., 0.)),
        'lowring': True, 'degree': draw(st.integers(0, 10)),
        'bias': draw(gen.scalars(0, 0, 0, 1, -1)),
    }


# -- the one-dimensional transform ------------------------------------------------

@st.composite
def direct_strategy(draw):
    case = draw(layout())
    case['lowring'] = draw(gen.scalars(True, True, False))
    if not case['lowring'] and case['pivot'] == 0:
        case['pivot'] = 2.
    case['kind'] = draw(gen.scalars('walk', 'complex', 'complex', 'free',
                                    'spike'))
    case['seed'] = draw(gen.seeds())
    case['entry'] = draw(gen.scalars('bessel', 'bessel', 'hankel', 'forward',
                                     'backward'))
    if case['entry'] == 'hankel':
        case['order'] = draw(gen.scalars(0., .5, 1., 2., 3.5, 7.25))
        case['bias'] = draw(gen.scalars(0., .3, -.5, .9))
    case['threaded'] = draw(gen.scalars(False, False, True))
    return case


def run_direct(case):
    from triumvirate._fftlog import HankelTransform
    from triumvirate.transforms import SphericalBesselTransform
    x = grid(case)
    n, d = case['n'], case['delta']
    a = samples(case['seed'], n, case['kind'])
    q = case['bias']
    kw = dict(lowring=case['lowring'], threaded=case['threaded'])
    if case['entry'] == 'hankel':
        mu = case['order']
        t = HankelTransform(mu, q, x, case['pivot'], **kw)
    else:
        mu = case['degree'] + .5
        t = SphericalBesselTransform(case['degree'], q, x,
                                     pivot=case['pivot'], **kw)
    pivot = low_ringing(mu, q, d, case['pivot']) if case['lowring'] \
        else case['pivot']
    if case['lowring']:
        # the pivot may be any of those that meet the condition
        turns = math.log(t.pivot/pivot)/d
        check(abs(turns - round(turns)) < 1e-7,
              f'pivot {t.pivot!r} misses the low-ringing condition by '
              f'{turns - round(turns)} of a spacing')
        if case['pivot'] > 0:
            check(abs(math.log(t.pivot/case['pivot'])) <= d/2*(1 + 1e-9),
                  f"pivot {t.pivot!r} is not the one nearest to "
                  f"{case['pivot']}")
        else:
            check(math.exp(-1e-9) <= t.pivot <= math.exp(d + 1e-9),
                  f'pivot {t.pivot!r} out of the first spacing')
    else:
        check(t.pivot == pivot, f'pivot {t.pivot!r} instead of {pivot}')
    check(t.size == n, f'size {t.size} instead of {n}')
    if case['entry'] == 'hankel':
        power = np.ones(n)
        pre = a.astype(complex)
        k, g = t.transform(a)
    else:
        pre = a*x**1.5
        if case['entry'] == 'bessel':
            k, g = t.transform(a)
        else:
            sign = {'forward': 1, 'backward': -1}[case['entry']]
            how = case['entry'] if case['seed'] % 2 else sign
            k, g = t.transform_cosmo_multipoles(how, a)
            pre = pre*(-1j)**(sign*case['degree'])
            if sign < 0:
                pre = pre/(2*np.pi)**3
        power = (2*np.pi/np.asarray(k))**1.5
    want_k = t.pivot*math.exp(-d)/x[::-1]
    want, umax = reference(mu, q, d, t.pivot, pre)
    close(k, want_k, 'sample points', rtol=1e-9)
    close(np.asarray(g)/power, want, 'samples', rtol=1e-9,
          scale=np.abs(pre).max()*max(umax, 1e-3))
    return ok(n >= 4 and np.abs(a).max() > 0, case['entry'], case['kind'],
              'low ringing' if case['lowring'] else 'free pivot',
              'odd' if n % 2 else 'even')


# -- known integrals -----------------------------------------------------------------

@st.composite
def known_strategy(draw):
    degree = draw(st.integers(0, 8))
    # periodic images are suppressed by the range to the degree plus bias
    bias = draw(gen.scalars(0, 0, 1, -1 if degree else 0))
    return {
        'degree': degree, 'bias': bias,
        'power': draw(gen.scalars(0, 0, 1, 2)),
        'scale': draw(gen.scalars(.1, 1., 3., 100.)),
        'amp': draw(gen.scalars(1., -2.5, 1e4)),
        'n': draw(gen.scalars(400, 511, 640)),
        'shift': draw(gen.scalars(0., .3, .77)),
        'spots': draw(st.lists(st.floats(-1.5, .9), min_size=4,
                               max_size=4)),
    }


def gaussian_integral(ell, q, power, k):
    """4 pi int r^2 (kr)^q j_ell(kr) r^(ell+power) exp(-r^2/2) dr."""
    k = mpmath.mpf(k)
    nu = ell + mpmath.mpf(1)/2
    mu = 2 + q + ell + power + mpmath.mpf(1)/2     # argument of the moments
    val = mpmath.gamma((nu + mu)/2)*(k/mpmath.sqrt(2))**nu \
        * mpmath.hyp1f1((nu + mu)/2, nu + 1, -k*k/2) \
        * mpmath.sqrt(2)**mu/(2*mpmath.gamma(nu + 1))
    return float(4*mpmath.pi*k**q*mpmath.sqrt(mpmath.pi/(2*k))*val)


def run_known(case):
    from triumvirate.transforms import SphericalBesselTransform
    ell, q, s, p = (case[c] for c in ('degree', 'bias', 'scale', 'power'))
    r = s*np.exp(np.linspace(-11., 11., case['n']) + .05*case['shift'])
    f = case['amp']*(r/s)**(ell + p)*np.exp(-(r/s)**2/2)
    t = SphericalBesselTransform(ell, q, r)
    k, g = t.transform(f)
    g = np.asarray(g)
    peak = 0.
    pairs = []
    for spot in case['spots']:
        i = int(np.argmin(np.abs(np.log10(k*s) - spot)))
        want = case['amp']*s**3*gaussian_integral(ell, q, p, k[i]*s)
        pairs.append((i, want))
    # errors are set by the largest value of the weighted samples
    grid_k = np.geomspace(.03, 9., 24)
    peak = max(abs(case['amp']*s**3*gaussian_integral(ell, q, p, v))*v**1.5
               for v in grid_k)
    for i, want in pairs:
        tol = 2e-6*abs(want) + 1e-8*peak/(k[i]*s)**1.5
        check(abs(g[i] - want) <= tol,
              f'degree {ell}, bias {q}: transform of '
              f'r^{ell + p} exp(-r^2/2) at k = {k[i]*s:.6g} is {g[i]}, '
              f'not {want}')
    return ok(True, f'degree {ell}', f'bias {q}')


# -- there and back, linearity --------------------------------------------------------

@st.composite
def back_strategy(draw):
    case = draw(layout(nmax=80))
    case['bias'] = 0
    case['kind'] = draw(gen.scalars('walk', 'complex', 'free', 'spike'))
    case['seed'] = draw(gen.seeds())
    case['first'] = draw(gen.scalars('forward', 'backward'))
    case['coeffs'] = draw(st.lists(gen.scalars(-2., .5, 3.), min_size=2,
                                   max_size=2))
    case['bias2'] = draw(gen.scalars(0, 1, -1))
    return case


def run_back(case):
    from triumvirate.transforms import SphericalBesselTransform
    x = grid(case)
    a = samples(case['seed'], case['n'], case['kind']).astype(complex)
    there, back = ('forward', 'backward') if case['first'] == 'forward' \
        else ('backward', 'forward')
    t = SphericalBesselTransform(case['degree'], 0, x, pivot=case['pivot'])
    k, g = t.transform_cosmo_multipoles(there, a)
    s = SphericalBesselTransform(case['degree'], 0, k, pivot=t.pivot)
    r, b = s.transform_cosmo_multipoles(back, g)
    close(s.pivot, t.pivot, 'pivot of the transform back', rtol=1e-8)
    close(r, x, 'points there and back', rtol=1e-7)
    w = x**1.5
    close(np.asarray(b)*w, a*w, 'samples there and back', rtol=1e-6,
          scale=np.abs(a*w).max())
    # linearity
    t = SphericalBesselTransform(case['degree'], case['bias2'], x,
                                 pivot=case['pivot'])
    a2 = samples(case['seed'] + 1, case['n'], 'complex')
    c1, c2 = case['coeffs']
    g1, g2, g12 = (np.array(t.transform(v)[1])*k**1.5
                   for v in (a, a2, c1*a + c2*a2))
    close(g12, c1*g1 + c2*g2, 'transform of a combination', rtol=1e-9,
          scale=abs(c1)*np.abs(g1).max() + abs(c2)*np.abs(g2).max())
    return ok(case['n'] >= 4, case['first'], case['kind'])


# -- extrapolation -----------------------------------------------------------------------

@st.composite
def extrap_strategy(draw):
    case = draw(layout(nmin=8, nmax=40, even=True))
    case['option'] = draw(st.integers(1, 5))
    case['layer'] = draw(gen.scalars('outer', 'outer', 'native')) \
        if case['option'] < 5 else 'outer'
    case['factor'] = draw(gen.scalars(2., 2., 1., 1.5, 3., 4.))
    case['kind'] = 'walk' if case['option'] == 4 else draw(
        gen.scalars('walk', 'free'))
    case['delta'] = draw(gen.scalars(.02, .1, .3))
    case['seed'] = draw(gen.seeds())
    case['cosmo'] = draw(gen.scalars(0, 0, 1, -1))
    return case


def run_extrap(case):
    from triumvirate.transforms import SphericalBesselTransform
    x = grid(case)
    n, d, mu = case['n'], case['delta'], case['degree'] + .5
    a = samples(case['seed'], n, case['kind'])
    t = SphericalBesselTransform(
        case['degree'], case['bias'], x, pivot=case['pivot'],
        extrap=case['option'], extrap_exp=case['factor'],
        extrap_layer=case['layer'])
    size = expansion_size(n, case['factor'])
    check(t.size == size, f'transform size {t.size} instead of {size}')
    if case['cosmo']:
        k, g = t.transform_cosmo_multipoles(case['cosmo'], a)
    else:
        k, g = t.transform(a)
    n_ext = (size - n)//2
    wide = case['lo']*np.exp(d*np.arange(-n_ext, n + n_ext))
    if case['layer'] == 'outer':
        pre = extend(a, n_ext, case['option'])*wide**1.5
    else:
        pre = extend(a*x**1.5, n_ext, case['option'])
    want_k = t.pivot*math.exp(-d)/wide[::-1]
    want, umax = reference(mu, case['bias'], d, t.pivot, pre)
    cut = slice(n_ext, n_ext + n)
    want = want[cut]
    scale = np.abs(pre).max()*umax
    if case['cosmo']:
        want = want*(-1j)**(case['cosmo']*case['degree'])
        if case['cosmo'] < 0:
            want, scale = want/(2*np.pi)**3, scale/(2*np.pi)**3
    compare(k, g, want_k[cut], want, scale,
            f"extrapolation {case['option']} ({case['layer']})")
    return ok(n_ext > 0, f"option {case['option']}", case['layer'])


# -- two dimensions --------------------------------------------------------------------------

@st.composite
def double_strategy(draw):
    case = draw(layout(nmin=3, nmax=20))
    case['degrees'] = [draw(st.integers(0, 5)) for _ in range(2)]
    case['biases'] = [draw(gen.scalars(0, 0, 1, -1)) for _ in range(2)]
    case['option'] = draw(gen.scalars(0, 0, 1, 2, 3, 4, 5))
    case['two'] = draw(st.booleans())
    case['factor'] = draw(gen.scalars(2., 1., 3.))
    if case['option']:
        case['n'] = max(8, case['n'] + case['n'] % 2)
        case['delta'] = min(case['delta'], .3)
    case['lowring'] = draw(gen.scalars(True, True, False))
    if not case['lowring'] and case['pivot'] == 0:
        case['pivot'] = 1.5
    case['cosmo'] = draw(gen.scalars(0, 0, 1, -1))
    case['complex'] = case['option'] == 0 and draw(st.booleans())
    case['seed'] = draw(gen.seeds())
    return case


def run_double(case):
    from triumvirate._arrayops import extrap2d_loglin_oscil
    from triumvirate.transforms import (
        DoubleSphericalBesselTransform, SphericalBesselTransform)
    x = grid(case)
    n, d = case['n'], case['delta']
    rng = np.random.default_rng(case['seed'])
    if case['option'] in (4, 5):
        a = np.exp(np.cumsum(rng.uniform(-.2, .2, n))[:, None]
                   + np.cumsum(rng.uniform(-.2, .2, n))[None, :]
                   + .1*rng.uniform(-1, 1, (n, n)))
        if case['option'] == 5:
            a *= np.cos(np.arange(n)*.9)[:, None]
    else:
        a = rng.normal(size=(n, n))
    if case['complex']:
        a = a + 1j*rng.normal(size=(n, n))
    keep = a.copy()
    kw = dict(pivot=case['pivot'], lowring=case['lowring'])
    if case['option'] == 4 and not case['two']:
        # intermediate results have no common sign in general
        case = dict(case, option=3)
    t = DoubleSphericalBesselTransform(
        case['degrees'], case['biases'], x, extrap=case['option'],
        extrap_exp=case['factor'], extrap2d=case['two'], **kw)
    size = expansion_size(n, case['factor']) if case['option'] else n
    check(t.size == size, f'transform size {t.size} instead of {size}')
    if case['cosmo']:
        (k1, k2), g = t.transform_cosmo_multipoles(case['cosmo'], a)
    else:
        (k1, k2), g = t.transform(a)
    equal(a, keep, 'samples after the transform')
    n_ext = (size - n)//2
    wide = case['lo']*np.exp(d*np.arange(-n_ext, n + n_ext))

    def one(axis, layer):
        opt = case['option'] if layer != 'none' else 0
        pts = wide if layer == 'none' and case['two'] else x
        kw2 = dict(kw, extrap=opt, extrap_exp=case['factor'])
        if opt:
            kw2['extrap_layer'] = layer
        return SphericalBesselTransform(
            case['degrees'][axis], case['biases'][axis], pts, **kw2)

    def compose(layer):
        s1, s2 = one(0, layer), one(1, layer)
        b = a
        if layer == 'none' and case['option']:
            if case['option'] == 5:
                b = extrap2d_loglin_oscil(a, n_ext)
            else:
                b = np.array([extend(v, n_ext, case['option']) for v in a])
                b = np.array([extend(v, n_ext, case['option'])
                              for v in b.T]).T
        b = np.array([s2.transform(v)[1] for v in b])
        b = np.array([s1.transform(v)[1] for v in b.T]).T
        if layer == 'none' and case['option'] and n_ext:
            b = b[n_ext:-n_ext, n_ext:-n_ext]
        if case['cosmo']:
            b = b*(-1j)**(case['cosmo']*sum(case['degrees']))
            if case['cosmo'] < 0:
                b = b/(2*np.pi)**6
        k = np.asarray(s1._post_sampts)
        if layer == 'none' and case['option'] and n_ext:
            k = k[n_ext:-n_ext]
        return b, (s1.pivot, s2.pivot), k

    if not case['option'] or case['two']:
        wants = [compose('none')]
    elif case['option'] == 5:
        wants = [compose('outer')]
    else:
        # the documented layer is the native one; the transforms made
        # by default extrapolate outside
        wants = [compose('outer'), compose('native')]
    close(t.pivot, wants[0][1], 'pivots', rtol=1e-9)
    want_1, want_2 = (
        (p*math.exp(-d)/wide[::-1])[n_ext:n_ext + n] for p in t.pivot)
    close(k1, np.repeat(want_1[:, None], n, 1), 'first points', rtol=1e-8)
    close(k2, np.repeat(want_2[None, :], n, 0), 'second points', rtol=1e-8)
    errors = []
    for want, _, _ in wants:
        w = np.outer(want_1, want_2)**1.5
        try:
            close(g*w, want*w, f"two-dimensional transform, extrapolation "
                  f"{case['option']}", rtol=1e-8, scale=np.abs(want*w).max())
            break
        except Violation as e:
            errors.append(e)
    else:
        raise errors[0]
    return ok(case['degrees'][0] != case['degrees'][1] or case['option'],
              f"option {case['option']}", 'both' if case['two'] else 'each')


# -- histories and admissible inputs ------------------------------------------------------------

@st.composite
def use_strategy(draw):
    n = draw(gen.scalars(8, 12, 20, 32))
    return {
        'n': n, 'lo': .1, 'delta': .1,
        'objects': [{'degree': draw(st.integers(0, 4)),
                     'extrap': draw(st.integers(0, 5)),
                     'layer': draw(gen.scalars('outer', 'outer', 'native')),
                     'scale': draw(gen.scalars(1., 2.))}
                    for _ in range(draw(st.integers(1, 3)))],
        'steps': draw(st.lists(st.tuples(
            st.integers(0, 2), gen.scalars(
                'array', 'list', 'int', 'strided', 'readonly', 'single',
                'short', 'long', 'matrix'),
            gen.scalars('transform', 'forward', -1), st.integers(0, 3),
        ).map(list), min_size=3, max_size=10)),
        'dims': draw(gen.scalars(1, 1, 2)),
    }


def run_use(case):
    from triumvirate.transforms import (
        DoubleSphericalBesselTransform, SphericalBesselTransform)
    n = case['n']
    two = case['dims'] == 2

    def build(spec):
        x = grid(case)*spec['scale']
        if two:
            return DoubleSphericalBesselTransform(
                (spec['degree'], 1), (0, 0), x, extrap=spec['extrap'],
                extrap2d=spec['layer'] == 'native')
        layer = spec['layer'] if spec['extrap'] < 5 else 'outer'
        return SphericalBesselTransform(
            spec['degree'], 0, x, extrap=spec['extrap'], extrap_layer=layer)

    live = [build(s) for s in case['objects']]
    seen = {}
    used = 0
    for which, form, how, data in case['steps']:
        which %= len(live)
        spec = case['objects'][which]
        if two and spec['extrap'] == 4 and spec['layer'] != 'native':
            continue
        rng = np.random.default_rng(data)
        shape = (n, n) if two else (n,)
        base = np.round(np.exp(.2*rng.normal(size=shape))*8) + 1
        if form in ('short', 'long', 'matrix'):
            m = {'short': n - 2, 'long': n + 2, 'matrix': n}[form]
            bad = np.ones((m, m) if two else (m,))
            if form == 'matrix':
                bad = np.ones((n, n, 2) if two else (n, 2))
            expect_raises(Exception, lambda: live[which].transform(bad),
                          f'{form} samples')
            continue
        a = base
        if form == 'list':
            a = base.tolist()
        elif form == 'int':
            a = base.astype(int)
        elif form == 'single' and spec['extrap'] < 3:
            # (extrapolation laws are applied in single precision)
            a = base.astype(np.float32)
        elif form == 'strided':
            big = np.zeros(tuple(2*m for m in shape))
            big[(slice(None, None, 2),)*len(shape)] = base
            a = big[(slice(None, None, 2),)*len(shape)]
        elif form == 'readonly':
            a = base.copy()
            a.flags.writeable = False

        def call(t, v):
            if how == 'transform':
                return t.transform(v)
            return t.transform_cosmo_multipoles(how, v)
        k, g = call(live[which], a)
        equal(np.asarray(a), base, f'{form} samples after the call')
        k, g = np.array(k), np.array(g)
        key = (which, str(how), data)
        if key not in seen:
            k0, g0 = call(build(spec), base.astype(float))
            seen[key] = np.array(k0), np.array(g0)
        tol = 1e-5 if form == 'single' else 1e-12
        close(k, seen[key][0], f'{form} points', rtol=1e-12)
        close(g, seen[key][1], f'{form} samples on a used object', rtol=tol,
              scale=np.abs(seen[key][1]).max())
        # what is returned belongs to the caller
        out = call(live[which], a)
        if isinstance(out[1], np.ndarray) and out[1].flags.writeable:
            out[1][...] = 0.
        used += 1
    return ok(used >= 2, f"{case['dims']}-d")


@st.composite
def reject_strategy(draw):
    return {
        'what': draw(gen.scalars('option', 'odd', 'layer', 'spacing', 'sign',
                                 'pivot', 'direction', 'native oscillatory',
                                 'one', 'poles')),
        'dims': draw(gen.scalars(1, 2)), 'n': draw(st.integers(8, 30)),
        'option': draw(st.integers(1, 4)),
    }


def run_reject(case):
    from triumvirate._fftlog import HankelTransform
    from triumvirate.transforms import (
        DoubleSphericalBesselTransform, SphericalBesselTransform)
    n = case['n']
    even = n + n % 2
    what = case['what']

    def build(x, **kw):
        if case['dims'] == 2:
            return DoubleSphericalBesselTransform((0, 2), (0, 0), x, **kw)
        return SphericalBesselTransform(2, 0, x, **kw)

    def bad():
        x = np.geomspace(.1, 10., even)
        if what == 'option':
            return build(x, extrap=6 if n % 2 else -1)
        if what == 'odd':
            return build(np.geomspace(.1, 10., even + 1),
                         extrap=case['option'])
        if what == 'layer':
            return SphericalBesselTransform(
                2, 0, x, extrap=case['option'], extrap_layer='inner')
        if what == 'spacing':
            return build(np.linspace(.1, 10., even))
        if what == 'sign':
            return build(np.geomspace(.1, 10., even)*np.r_[
                -1, np.ones(even - 1)])
        if what == 'pivot':
            return build(x, pivot=-1. if n % 2 else 0., lowring=False)
        if what == 'direction':
            a = np.ones((even, even) if case['dims'] == 2 else even)
            return build(x).transform_cosmo_multipoles('sideways', a)
        if what == 'native oscillatory':
            t = SphericalBesselTransform(2, 0, x, extrap=5,
                                         extrap_layer='native')
            return t.transform(np.ones(even))
        if what == 'one':
            return build(np.array([1.]))
        return HankelTransform(1., 4., x, 1.)
    expect_raises(ValueError if what in (
        'option', 'odd', 'layer', 'direction', 'native oscillatory',
        'spacing') else Exception, bad, what)
    return ok(True, what)


# -- the C++ transform --------------------------------------------------------------------------

@st.composite
def cpp_strategy(draw):
    case = draw(layout(nmin=3, nmax=32))
    case['option'] = draw(gen.scalars(0, 0, 1, 2, 3, 4))
    if case['option']:
        case['n'] += case['n'] % 2
        case['delta'] = min(case['delta'], .3)
    case['factor'] = draw(gen.scalars(2., 1., 3.))
    case['lowring'] = draw(gen.scalars(True, False))
    if not case['lowring'] and case['pivot'] == 0:
        case['pivot'] = 2.
    case['direction'] = draw(gen.scalars(0, 1, -1))
    case['extra'] = draw(gen.scalars(0, 0, 0, 0, -1, 2))
    case['room'] = draw(gen.scalars(0, 1, case['n'], case['n'] + 5))
    case['seed'] = draw(gen.seeds())
    return case


def run_cpp(case):
    x = grid(case)
    n, d, mu = case['n'], case['delta'], case['degree'] + .5
    kind = 'walk' if case['option'] == 4 else (
        'free' if case['option'] else 'complex')
    a = samples(case['seed'], n, kind)
    args = dict(pivot=case['pivot'], lowring=case['lowring'],
                extrap=case['option'], expansion=case['factor'],
                direction=case['direction'], nb=case['room'])
    if case['extra']:
        b = np.ones(n + case['extra'])
        expect_raises(drv.DriverError, lambda: drv.sbt(
            case['degree'], case['bias'], x, b, **args), 'wrong length')
        return ok(True, 'wrong length')
    k, g, pivot, _, size = drv.sbt(case['degree'], case['bias'], x, a, **args)
    want_size = expansion_size(n, case['factor']) if case['option'] else n
    check(size == want_size, f'transform size {size} instead of {want_size}')
    n_ext = (size - n)//2
    pre = a*x**1.5
    if case['option']:
        pre = extend(pre, n_ext, case['option'])
    want, umax = reference(mu, case['bias'], d, pivot, pre)
    want = want[n_ext:n_ext + n]
    scale = np.abs(pre).max()*umax
    if case['direction']:
        want = want*(-1j)**(case['direction']*case['degree'])
        if case['direction'] < 0:
            want, scale = want/(2*np.pi)**3, scale/(2*np.pi)**3
    if case['lowring']:
        turns = math.log(pivot/low_ringing(mu, case['bias'], d,
                                           case['pivot']))/d
        check(abs(turns - round(turns)) < 1e-7, f'pivot {pivot!r}')
    else:
        check(pivot == case['pivot'], f'pivot {pivot!r}')
    compare(k, g, pivot*math.exp(-d)/x[::-1], want, scale, 'C++ transform')
    return ok(True, f"option {case['option']}",
              f"direction {case['direction']}")


# -- resampling ----------------------------------------------------------------------------------

@st.composite
def resample_strategy(draw):
    dims = draw(gen.scalars(1, 2))
    case = {
        'dims': dims, 'spacing': draw(gen.scalars('lglin', 'lin')),
        'ranges': [[draw(st.floats(1e-3, 10.)), draw(st.floats(1.2, 300.))]
                   for _ in range(2)],
        'sizes': [draw(st.integers(6, 25)) for _ in range(2)],
        'own': draw(gen.scalars('lin', 'log', 'rough')),
        'common': draw(st.booleans()),
        'spline': draw(gen.scalars(3, 3, 3, 1, 2, 5)),
        'size': draw(gen.scalars('none', 'one', 'pair')),
        'new': [draw(st.integers(4, 40)) for _ in range(2)],
        'form': draw(gen.scalars('array', 'list', 'tuple')),
        'what': draw(gen.scalars('polynomial', 'polynomial', 'any')),
        'seed': draw(gen.seeds()),
    }
    return case


def run_resample(case):
    from triumvirate.transforms import resample_lglin, resample_lin
    f = resample_lglin if case['spacing'] == 'lglin' else resample_lin
    rng = np.random.default_rng(case['seed'])

    def points(i):
        lo, factor = case['ranges'][i]
        hi, n = lo*factor, case['sizes'][i]
        if case['own'] == 'log':
            return np.geomspace(lo, hi, n)
        x = np.linspace(0, 1, n)
        if case['own'] == 'rough':
            x[1:-1] += rng.uniform(-.3, .3, n - 2)/n
        return lo + (hi - lo)*x

    p = [points(0), points(1)]
    if case['dims'] == 1:
        p = p[:1]
    elif case['common']:
        p = [p[0], p[0]]
    unit = [(v - v[0])/(v[-1] - v[0]) for v in p]
    k = case['spline']
    deg = min(k, 4)
    if case['what'] == 'any':
        a = rng.normal(size=tuple(map(len, p)))
        if k not in (1, 3):
            k, deg = 3, 3
    else:
        coeff = rng.normal(size=(deg + 1,)*case['dims'])

    def poly(u):
        if case['dims'] == 1:
            return np.polynomial.polynomial.polyval(u[0], coeff)
        return np.polynomial.polynomial.polygrid2d(u[0], u[1], coeff)
    if case['what'] == 'polynomial':
        a = poly(unit)
    pts = p[0] if case['dims'] == 1 or case['common'] else p
    if case['form'] == 'list':
        pts = pts.tolist() if isinstance(pts, np.ndarray) else \
            [v.tolist() for v in pts]
    elif case['form'] == 'tuple':
        pts = tuple(pts)
    size = None
    want_n = [len(v) for v in p]
    if case['size'] == 'one' or (case['size'] == 'pair'
                                 and case['dims'] == 1):
        size = case['new'][0]
        want_n = [size]*case['dims']
    elif case['size'] == 'pair':
        size = case['new']
        want_n = list(size)
    keep = a.copy()
    out, b = f(pts, a, size=size, spline=k)
    equal(a, keep, 'samples after resampling')
    outs = [out] if case['dims'] == 1 else list(out)
    check(len(outs) == case['dims'], f'{len(outs)} sets of sample points')
    for v, o, n in zip(p, outs, want_n):
        want = np.geomspace(v[0], v[-1], n) if case['spacing'] == 'lglin' \
            else np.linspace(v[0], v[-1], n)
        close(o, want, 'resampled points', rtol=1e-10)
    inside = [np.clip(o, v[0], v[-1]) for v, o in zip(p, outs)]
    if case['what'] == 'polynomial':
        u = [(o - v[0])/(v[-1] - v[0]) for v, o in zip(p, inside)]
        want = poly(u)
        close(b, want, f'resampled polynomial of degree {deg}', rtol=1e-7,
              scale=np.abs(coeff).sum())
    else:
        want = a
        for axis, (v, o) in enumerate(zip(p, inside)):
            if k == 3:
                want = CubicSpline(v, want, axis=axis)(o)
            else:
                want = np.apply_along_axis(
                    lambda y: np.interp(o, v, y), axis, want)
        close(b, want, 'resampled values', rtol=1e-6,
              scale=np.abs(want).max())
    return ok(True, f"{case['dims']}-d", case['spacing'], case['what'],
              case['own'])


CHECKS = [
    Sub('direct', direct_strategy, run_direct, 1200, 60000, shards=1,
        rule='at least 4 samples, not all zero'),
    Sub('known', known_strategy, run_known, 120, 6000, shards=1,
        rule='every case'),
    Sub('back', back_strategy, run_back, 800, 40000,
        rule='at least 4 samples'),
    Sub('extrap', extrap_strategy, run_extrap, 800, 40000,
        rule='the samples are extended'),
    Sub('double', double_strategy, run_double, 500, 20000,
        rule='two degrees or extrapolation'),
    Sub('use', use_strategy, run_use, 400, 16000,
        rule='at least two transforms on live objects'),
    Sub('reject', reject_strategy, run_reject, 120, 1200, rule='every case'),
    Sub('cpp', cpp_strategy, run_cpp, 800, 40000, rule='every case'),
    Sub('resample', resample_strategy, run_resample, 600, 40000,
        rule='every case'),
]
