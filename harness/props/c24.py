"""C24: window convolution against its formulae."""
import contextlib
import io
import warnings
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import simpson
from scipy.interpolate import make_interp_spline

import gen
from core import Sub, Violation, check, close, equal, expect_raises, ok
from props.c23 import COEFFS, allowed, coefficient, three_j0

TARGETS = ['py']
ASSUMPTIONS = [
    'Interpolating splines are tensor products with the usual knots; values '
    'at points outside the samples are only required to be warned about.',
    'Transforms inside the convolution of spectra are those of C21.',
    'Multipoles of spectra have degrees for which the correlation functions '
    'of real spectra are real.',
]
FORMS_2 = ('tuple', 'object', 'int', 'digit')
FORMS_3 = ('tuple', 'object', 'string', 'commas', 'strings')
NAMED_2 = {h: [[q, z] for z in (0, 2, 4) for q in range(0, 13, 2)
               if three_j0(h, q, z)] for h in (0, 2, 4)}


def key(m, form):
    from triumvirate.winconv import Multipole
    if m == 'ic':
        return m
    return {'tuple': lambda: tuple(m), 'object': lambda: Multipole(tuple(m)),
            'int': lambda: m[0], 'digit': lambda: str(m[0]),
            'string': lambda: ''.join(map(str, m)),
            'commas': lambda: ','.join(map(str, m)),
            'strings': lambda: tuple(map(str, m))}[form]()


def keyed(d, form):
    return {key(m, form): v for m, v in d.items()}


def exact(c):
    return Fraction(*c) if isinstance(c, list) else Fraction(c)


# -- splines ----------------------------------------------------------------------------

def curve(x, y, k, t):
    return make_interp_spline(x, y, k=k)(t)


def surface(x1, x2, z, k, t1, t2):
    """Samples beyond the ends take the values there."""
    t1 = np.clip(t1, x1[0], x1[-1])
    t2 = np.clip(t2, x2[0], x2[-1])
    z = make_interp_spline(x1, z, k=k, axis=0)(t1)
    return make_interp_spline(x2, z, k=k, axis=1)(t2)


def integral(x, z):
    return simpson(simpson(z*x*x, x=x, axis=-1)*x*x, x=x, axis=-1)


def mean(rQ, Q, rZ, Z, k, r=None, only=None):
    """The window-weighted mean of the correlation function."""
    zero = (0, 0, 0)
    top = 0.
    for m in Q:
        if m in Z and (only is None or m in only):
            x = rZ[m] if r is None else r
            top += coefficient(zero, m, m) * integral(
                x, surface(rQ[m], rQ[m], Q[m], k, x, x)
                * surface(rZ[m], rZ[m], Z[m], k, x, x))
    x = rZ[zero] if r is None else r
    return top/integral(x, surface(rQ[zero], rQ[zero], Q[zero], k, x, x))


# -- cases -------------------------------------------------------------------------------

ALLOWED = [[a, b, c] for a in range(3) for b in range(3) for c in range(4)
           if allowed((a, b, c))]
EVEN = [m for m in ALLOWED if (m[0] + m[1]) % 2 == 0]


@st.composite
def formulae_strategy(draw, dims, pool=None, ic=True, most=4, rows=3,
                      repeat=False):
    if pool is None:
        pool = [[0], [1], [2], [3], [4], [6]] if dims == 1 else ALLOWED
    label = st.sampled_from(pool)
    if dims == 2 and draw(st.booleans()):
        label = st.one_of(st.just([0, 0, 0]), label)
    heads = draw(st.lists(label, min_size=1, max_size=rows,
                          unique_by=tuple))
    out = []
    for h in heads:
        terms = draw(st.lists(st.tuples(
            label, label, st.sampled_from(COEFFS)).map(list),
            min_size=1, max_size=most, unique_by=None if repeat else
            lambda t: (tuple(t[0]), tuple(t[1]))))
        if draw(st.integers(0, 3)) == 0:
            terms[0][1] = h
        if ic and dims == 2 and draw(st.booleans()):
            terms.append([draw(gen.scalars(h, [0, 0, 0])), 'ic',
                          draw(gen.scalars(-1, -1, -2))])
        out.append([h, terms])
    return out


def model_of(spec):
    if spec == 'wilson+16':
        return {(h,): [((q,), (z,), (2*h + 1)*three_j0(h, q, z)**2)
                       for q, z in NAMED_2[h]] for h in NAMED_2}
    if spec == 'sugiyama+19':
        lead = [(0, 0, 0), (1, 1, 0)]
        more = lead + [(2, 0, 2), (0, 2, 2), (1, 1, 2)]
        return {h: [(q, z, coefficient(h, q, z)) for q in more for z in more
                    if (q in lead or z in lead)
                    and abs(coefficient(h, q, z)) > 1e-12] + [(h, 'ic', -1.)]
                for h in ((0, 0, 0), (1, 1, 0), (2, 0, 2), (1, 1, 2))}
    return {tuple(h): [(tuple(q), z if z == 'ic' else tuple(z),
                        float(exact(c))) for q, z, c in terms]
            for h, terms in spec}


def formulae_of(spec, form, obj):
    from triumvirate.winconv import WinConvFormulae
    if isinstance(spec, str):
        return spec if not obj else spec.upper()
    d = {key(h, form): [
        (key(q, form), key(z, form),
         exact(c) if isinstance(c, list) else c) for q, z, c in terms]
        for h, terms in spec}
    return WinConvFormulae(d) if obj else d


def needs(model):
    q = {t[0] for ts in model.values() for t in ts}
    z = {t[1] for ts in model.values() for t in ts}
    return sorted(q), sorted(z - {'ic'}), 'ic' in z


def grid(rng, n, lo, hi):
    """Increasing points from `lo` to `hi`, with uneven spacings."""
    s = rng.uniform(.5, 1.5, n - 1)
    x = np.exp(np.log(lo) + np.log(hi/lo)*np.concatenate(
        [[0.], np.cumsum(s)/s.sum()]))
    x[0], x[-1] = lo, hi
    return x


def freeze(*dicts):
    return [{k: np.array(v, copy=True) for k, v in d.items()} for d in dicts]


def same(dicts, kept, what):
    for d, f in zip(dicts, kept):
        check(set(d) == set(f), f'{what}: keys changed')
        for k in f:
            equal(d[k], f[k], f'{what}: {k}')


# -- correlation functions -----------------------------------------------------------------

@st.composite
def conv_strategy(draw):
    dims = draw(gen.scalars(1, 1, 2, 2, 2))
    named = 'wilson+16' if dims == 1 else 'sugiyama+19'
    forms = FORMS_2 if dims == 1 else FORMS_3
    spline = draw(gen.scalars(None, 3, 1, 2, 4, 5))
    return {
        'dims': dims,
        'formulae': draw(st.one_of(st.just(named), formulae_strategy(dims),
                                   formulae_strategy(dims, repeat=True))),
        'obj': draw(st.booleans()),
        'forms': [draw(gen.scalars(*forms)) for _ in range(6)],
        'spline': spline,
        'n': draw(st.integers(7, 14)),
        'common_q': draw(st.booleans()), 'common_z': draw(st.booleans()),
        'out': draw(gen.scalars('none', 'none', 'common', 'common', 'dict',
                                'outside')),
        'ic': draw(gen.scalars(None, None, .3, 0.)),
        'extra': draw(st.booleans()),
        'again': draw(gen.scalars(None, None, 'cover', 'same')),
        'diag': draw(gen.scalars(False, False, True)),
        'seed': draw(gen.seeds()),
    }


def run_conv(case):
    from triumvirate.winconv import (
        ConvolutionRangeWarning, ThreePCFWinConv, TwoPCFWinConv)
    dims = case['dims']
    rng = np.random.default_rng(case['seed'])
    model = model_of(case['formulae'])
    need_q, need_z, with_ic = needs(model)
    if not need_z:
        return ok(False, 'no multipoles')
    k = 3 if case['spline'] is None else case['spline']
    zero = (0,)*(1 if dims == 1 else 3)
    have_q, have_z = list(need_q), list(need_z)
    if case['extra']:
        have_q += [m for m in (zero, (5,)*len(zero)) if m not in have_q]
        if not case['common_z']:
            have_z += [m for m in (zero,) if m not in have_z]
    n = case['n']
    common = grid(rng, n, .5, 40.)
    rQ = {m: common if case['common_q']
          else grid(rng, int(rng.integers(7, 14)), .5, 40.) for m in have_q}
    common = grid(rng, n, 1., 30.)
    rZ = {m: common if case['common_z']
          else grid(rng, int(rng.integers(7, 14)), 1., 30.) for m in have_z}
    full = dims == 2 and not case['diag']
    Q = {m: rng.normal(size=(len(rQ[m]),)*dims) + (m == zero)*3
         for m in have_q}
    Z = {m: rng.normal(size=(len(rZ[m]),)*(2 if full else 1)) for m in have_z}
    f = case['forms']
    r_out, kw = None, {}
    if case['out'] == 'common':
        r_out = kw['r_out'] = grid(rng, int(rng.integers(5, 12)), 1., 30.)
    elif case['out'] == 'outside':
        r_out = kw['r_out'] = grid(rng, 8, *[(.2, 20.), (2., 60.)][
            case['seed'] % 2])
    elif case['out'] == 'dict':
        r_out = {h: grid(rng, int(rng.integers(5, 12)), 1.2, 28.)
                 for h in model}
        kw['r_out'] = keyed(r_out, f[4])
    if case['spline'] is not None:
        kw['spline'] = case['spline']
    cls = TwoPCFWinConv if dims == 1 else ThreePCFWinConv
    args = [common if case['common_z'] else keyed(rZ, f[3])]
    sampts = rQ[have_q[0]] if case['common_q'] else keyed(rQ, f[1])
    windows = keyed(Q, f[2])
    kept = freeze(rQ, rZ, Q, Z)

    def build():
        made = cls(formulae_of(case['formulae'], f[0], case['obj']),
                   sampts, windows, *args, **kw)
        if case['again']:
            # set the sample points of the same object again
            caught.clear()
            made.initialise_sampts(
                *args, r_out=kw.get('r_out'),
                enforce_coverage=case['again'] == 'cover')
        return made

    caught = []
    if case['out'] == 'none' and not set(model) <= set(rZ):
        expect_raises(ValueError, build, 'output points left open')
        return ok(False, 'open output points')
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        wc = build()
    covered = r_out is None and case['again'] == 'cover'
    if covered:
        r_out = {}
        for h, ts in model.items():
            xs = [rQ[q] for q, _, _ in ts] + [
                rZ[z] for _, z, _ in ts if z != 'ic']
            r_out[h] = np.geomspace(
                max(x[0] for x in xs), min(x[-1] for x in xs),
                min(map(len, xs)))
    elif r_out is None:
        r_out = {h: rZ[h] for h in model}
    elif not isinstance(r_out, dict):
        r_out = {h: r_out for h in model}
    out_of_range = any(
        r_out[h][0] < x[0]*(1 - 1e-4) or r_out[h][-1] > x[-1]*(1 + 1e-4)
        for h, ts in model.items() for q, z, _ in ts
        for x in [rQ[q]] + ([rZ[z]] if z != 'ic' else []))
    check(any(issubclass(w.category, ConvolutionRangeWarning)
              for w in caught) == out_of_range,
          f'warning of the range, {out_of_range=}')
    check({m.index for m in wc.r_out} == set(model), f'{list(wc.r_out)}')
    for m, v in wc.r_out.items():
        if covered:
            close(v, r_out[m.index], f'covered output points of {m}',
                  rtol=1e-9)
        else:
            equal(v, r_out[m.index], f'output points of {m}')
    for m, v in wc.r_in.items():
        equal(v, rZ[m.index], f'input points of {m}')

    def convolve(z, **kw):
        z = {m: v.copy() for m, v in z.items()}
        keep, = freeze(z)
        given = keyed(z, f[5])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if case['diag'] and dims == 2:
                got = wc.convolve_diag(given, **kw)
            else:
                got = wc.convolve(given, **kw)
        same([z], [keep], 'input multipoles')
        check({m.index for m in got} == set(model), f'{list(got)}')
        return {m.index: v for m, v in got.items()}

    ic_kw, ic = {}, None
    if dims == 2 and with_ic:
        ic = case['ic']
        if ic is None and case['diag']:
            expect_raises(ValueError, lambda: convolve(Z),
                          'integral constraint not given')
            ic = .7
        if ic is not None:
            ic_kw = {'ic': ic}
        elif zero not in rZ or zero not in rQ:
            expect_raises(ValueError, lambda: convolve(Z),
                          'integral constraint without monopoles')
            return ok(False, 'no monopole')
        else:
            # (of the third order in any case)
            ic = mean(rQ, Q, rZ, Z, 3)
    got, sizes = convolve(Z, **ic_kw), {}
    for h, ts in model.items():
        t = r_out[h]
        want, size = 0., 0.
        inside = np.ones(t.shape, bool)
        for q, z, c in ts:
            qv = np.diag(Q[q]) if case['diag'] and dims == 2 else Q[q]
            inside &= (t >= rQ[q][0]) & (t <= rQ[q][-1])
            if z != 'ic':
                inside &= (t >= rZ[z][0]) & (t <= rZ[z][-1])
            if full:
                a = surface(rQ[q], rQ[q], qv, k, t, t)
                b = ic if z == 'ic' else surface(rZ[z], rZ[z], Z[z], k, t, t)
            else:
                a = curve(rQ[q], qv, k, t)
                b = ic if z == 'ic' else curve(rZ[z], Z[z], k, t)
            want = want + c*a*b
            size = np.maximum(size, np.abs(c*a*b).max())
        cut = np.ix_(inside, inside) if full else inside
        sizes[h] = np.max(size)
        check(np.shape(got[h]) == np.shape(want), f'{np.shape(got[h])}')
        close(got[h][cut], np.asarray(want)[cut], f'convolved {h}',
              rtol=1e-7, scale=size)
    again = convolve(Z, **ic_kw)
    for h in model:
        equal(again[h], got[h], f'{h} convolved again')
    # linear in the correlation function and its integral constraint
    Y = {m: rng.normal(size=v.shape) for m, v in Z.items()}
    other = convolve(Y, **{a: -2*v for a, v in ic_kw.items()})
    both = convolve({m: 2*Z[m] - .5*Y[m] for m in Z},
                    **{a: 3*v for a, v in ic_kw.items()})
    for h in model:
        size = max(np.abs(got[h]).max(), np.abs(other[h]).max(), sizes[h])
        close(both[h], 2*got[h] - .5*other[h], f'linear {h}', rtol=1e-7,
              scale=size*10)
    same([rQ, rZ, Q], kept[:3], 'arguments')
    return ok(any(len(ts) > 1 for ts in model.values()),
              f'{dims}-d', 'covered' if covered else case['out'], 'diagonal' if not full and dims == 2
              else 'full', case['formulae'] if isinstance(
                  case['formulae'], str) else 'own formulae')


# -- the integral constraint ---------------------------------------------------------------

@st.composite
def ic_strategy(draw):
    ms = draw(st.lists(st.sampled_from(ALLOWED[1:]), max_size=4,
                       unique_by=tuple))
    return {
        'ms': ms, 'drop': draw(gen.scalars(None, None, 'window', 'zeta',
                                           'monopole')),
        'common': [draw(st.booleans()) for _ in range(2)],
        'r': draw(gen.scalars('none', 'given')),
        'approx': draw(gen.scalars(False, False, True)),
        'spline': draw(gen.scalars(None, 1, 2, 3, 5)),
        'forms': [draw(gen.scalars(*FORMS_3)) for _ in range(4)],
        'n': draw(st.integers(7, 15)), 'seed': draw(gen.seeds()),
    }


def run_ic(case):
    from triumvirate.winconv import ThreePCFWinConv, calc_threept_ic
    rng = np.random.default_rng(case['seed'])
    zero = (0, 0, 0)
    qs = [zero] + [tuple(m) for m in case['ms']]
    zs = list(qs)
    if case['drop'] == 'window':
        qs = qs[:2]
    elif case['drop'] == 'zeta':
        zs = zs[:2]
    elif case['drop'] == 'monopole':
        zs = zs[1:]
    n = case['n']

    def points(ms, lo, hi, common):
        x = grid(rng, n, lo, hi)
        return {m: x if common else grid(rng, int(rng.integers(7, 14)), lo,
                                         hi) for m in ms}
    rQ = points(qs, .5, 40., case['common'][0])
    rZ = points(zs, 1., 30., case['common'][1])
    Q = {m: rng.normal(size=(len(rQ[m]),)*2) + 3*(m == zero) for m in qs}
    Z = {m: rng.normal(size=(len(rZ[m]),)*2) for m in zs}
    f = case['forms']
    kw = {} if case['spline'] is None else {'spline': case['spline']}
    k = case['spline'] or 3
    r = None
    if case['r'] == 'given':
        r = kw['r_common'] = grid(rng, 9 + n % 2, 1.1, 29.)
    if case['approx']:
        kw['approx'] = True

    def call(Z):
        with warnings.catch_warnings():
            warnings.simplefilter('error')
            return calc_threept_ic(
                rQ[qs[0]] if case['common'][0] else keyed(rQ, f[0]),
                keyed(Q, f[1]),
                rZ[zs[0]] if case['common'][1] else keyed(rZ, f[2]),
                keyed(Z, f[3]), **kw)
    if zero not in zs:
        if not case['approx'] and zs:
            expect_raises(ValueError, lambda: call(Z), 'no monopole')
        return ok(False, 'no monopole')
    kept = freeze(rQ, rZ, Q, Z)
    got = call(Z)
    same([rQ, rZ, Q, Z], kept, 'arguments')
    only = [zero] if case['approx'] else None
    sizes = [abs(mean(rQ, {zero: Q[zero], m: Q[m]}, rZ,
                      {zero: 0*Z[zero], m: Z[m]}, k, r))
             for m in Q if m in Z]
    close(got, mean(rQ, Q, rZ, Z, k, r, only), 'integral constraint',
          rtol=1e-7, scale=max(sizes))
    # a constant monopole is its own mean
    flat = call({m: np.full(v.shape, 1.7 if m == zero else 0.)
                 for m, v in Z.items()})
    close(flat, 1.7, 'mean of a constant', rtol=1e-10)
    # the convolved monopole integrates to zero with its constraint
    if not case['approx'] and r is None:
        x = grid(rng, n, 1., 30.)
        Y = {m: rng.normal(size=(n, n)) for m in zs}
        shared = [m for m in zs if m in Q]
        rows = {zero: [(m, m, coefficient(zero, m, m)) for m in shared]
                + [(zero, 'ic', -1)]}
        wc = ThreePCFWinConv(rows, rQ, Q, x)
        out, = wc.convolve({m: Y[m] for m in shared}).values()
        scale = sum(abs(integral(x, Y[m]*surface(rQ[m], rQ[m], Q[m], 3, x, x)))
                    for m in shared)
        close(integral(x, out), 0., 'integral of the convolved monopole',
              atol=1e-8*scale + 1e-8*abs(integral(x, np.ones((n, n)))))
    return ok(len(sizes) > 1, f'{len(sizes)} multipoles')


# -- spectra ----------------------------------------------------------------------------------

KWARGS = [{}, {'extrap': 0}, {'extrap': 1}, {'extrap': 2}, {'extrap': 3},
          {'extrap': 5}, {'extrap': 0, 'lowring': False, 'pivot': 1.2},
          {'extrap': 2, 'extrap_exp': 3.}, {'extrap': 0, 'pivot': 0.},
          {'extrap': 3, 'threaded': True}]


@st.composite
def spectra_strategy(draw, dims=None):
    dims = dims or draw(gen.scalars(1, 2))
    pool = [[0], [2], [4]] if dims == 1 else EVEN
    named = 'wilson+16' if dims == 1 else 'sugiyama+19'
    return {
        'dims': dims,
        'formulae': draw(st.one_of(
            st.just(named), formulae_strategy(dims, pool, most=3),
            formulae_strategy(dims, pool, most=3))),
        'obj': draw(st.booleans()),
        'forms': [draw(gen.scalars(*(FORMS_2 if dims == 1 else FORMS_3)))
                  for _ in range(5)],
        'kwargs': draw(st.integers(0, len(KWARGS) - 1)),
        'spline': draw(gen.scalars(None, 3, [3, 1], [2, 3], 1)),
        'n': draw(gen.scalars(8, 10, 12)), 'lo': draw(gen.scalars(.01, .1)),
        'delta': draw(gen.scalars(.1, .2, .35)),
        'k': draw(gen.scalars('common', 'dict', 'own')),
        'uneven': draw(gen.scalars(False, False, True)) and dims == 2,
        'r': draw(gen.scalars('none', 'none', 'given')),
        'k_out': draw(gen.scalars('none', 'given')),
        'ic': draw(gen.scalars(None, .2, 0.)),
        'common_q': draw(st.booleans()),
        'ret': draw(st.booleans()),
        'seed': draw(gen.seeds()),
    }


def prepare(case):
    """Arguments of a convolution of spectra, and plain copies of them."""
    dims = case['dims']
    rng = np.random.default_rng(case['seed'])
    model = model_of(case['formulae'])
    need_q, need_z, with_ic = needs(model)
    ks = {}
    for i, m in enumerate(need_z):
        n = case['n'] + (2*(i % 2) if case['k'] == 'own' else 0)
        lo = case['lo']*(1 + .1*i*(case['k'] == 'own'))
        x = lo*np.exp(case['delta']*np.arange(n))
        if case['uneven']:
            x = np.linspace(x[0], x[-1], n)
        ks[m] = x
    x = np.geomspace(1e-3, 1e5, 41)
    rQ = {m: x if case['common_q'] else np.geomspace(1e-3, 1e5, 35 + i)
          for i, m in enumerate(need_q)}
    Q = {m: sum(rng.normal()*np.exp(-(np.log(v/c)/3)**2) for c in (.1, 3, 40.))
         + 2.*(not any(m)) for m, v in rQ.items()}
    if dims == 2:
        Q = {m: np.outer(v, rng.uniform(.5, 1)*v + 1) for m, v in Q.items()}
    B = {}
    for m, x in ks.items():
        t = np.log(x/x[0])
        v = np.exp(-((t - t[-1]*rng.uniform(.2, .8))/t[-1]*3)**2)
        v = v*rng.uniform(.9, 1.1, len(x))*rng.choice([-1, 1.])*2
        if dims == 2:
            v = np.outer(v, np.roll(v, 1))*rng.uniform(.95, 1.05, (len(x),)*2)
        B[m] = v
    kw = {}
    if case['spline'] is not None:
        kw['spline'] = tuple(case['spline']) if isinstance(
            case['spline'], list) else case['spline']
    if KWARGS[case['kwargs']] or case['seed'] % 2:
        kw['transform_kwargs'] = dict(KWARGS[case['kwargs']])
    return model, need_q, need_z, with_ic, ks, rQ, Q, B, kw, rng


def run_spectra(case):
    from triumvirate._arrayops import MixedSignError
    from triumvirate.transforms import (
        DoubleSphericalBesselTransform, SphericalBesselTransform)
    from triumvirate.winconv import BispecWinConv, PowspecWinConv
    dims = case['dims']
    model, need_q, need_z, with_ic, ks, rQ, Q, B, kw, rng = prepare(case)
    if not need_z:
        return ok(False, 'no multipoles')
    f = case['forms']
    zero = (0,)*(1 if dims == 1 else 3)
    s_r, s_k = kw['spline'] if isinstance(kw.get('spline'), tuple) else \
        (kw.get('spline', 3),)*2
    t_kw = dict(KWARGS[case['kwargs']])
    t_kw.setdefault('extrap', 4 if dims == 1 else 5)

    def transform(m, x):
        if dims == 1:
            t = SphericalBesselTransform(m[0], 0, x, **t_kw)
            return t, [np.asarray(t._post_sampts)]
        t = DoubleSphericalBesselTransform((m[0], m[1]), (0, 0), x, **t_kw)
        return t, [
            np.asarray(SphericalBesselTransform(
                ell, 0, x, **t_kw)._post_sampts) for ell in m[:2]]

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        # to configuration space
        x_in = {m: np.geomspace(x[0], x[-1], len(x)) if case['uneven'] else x
                for m, x in ks.items()}
        back = {m: transform(m, x) for m, x in x_in.items()}
        r_in = {m: pts[0] for m, (_, pts) in back.items()}
        if case['r'] == 'given':
            lo = max(p[0] for _, ps in back.values() for p in ps)
            hi = min(p[-1] for _, ps in back.values() for p in ps)
            r = kw['r_common'] = np.geomspace(
                lo*1.01, hi/1.01, case['n'] + 2*(case['seed'] % 2))
            r_out = {h: r for h in model}
        else:
            r_out = {h: r_in[h] for h in model if h in r_in}
        # and back
        if len(r_out) == len(model):
            fore = {h: transform(h, x) for h, x in r_out.items()}
            k_lo = max(p[0] for _, ps in fore.values() for p in ps)
            k_hi = min(p[-1] for _, ps in fore.values() for p in ps)
            if k_hi < 1.2*k_lo:
                return ok(False, 'disjoint ranges')
            if case['k_out'] == 'given':
                kw['k_out'] = np.linspace(k_lo*1.05, k_hi/1.05, 7)
        keep_kw = dict(kw.get('transform_kwargs', {}))

        cls = PowspecWinConv if dims == 1 else BispecWinConv

        def build():
            return cls(
                formulae_of(case['formulae'], f[0], case['obj']),
                rQ[need_q[0]] if case['common_q'] else keyed(rQ, f[1]),
                keyed(Q, f[2]),
                ks[need_z[0]] if case['k'] == 'common' else keyed(ks, f[3]),
                **kw)
        if len(r_out) < len(model):
            expect_raises(ValueError, build, 'separations left open')
            return ok(False, 'open separations')
        kept = freeze(ks, rQ, Q, B)
        wc = build()
        check(kw.get('transform_kwargs', {}) == keep_kw,
              'transform arguments changed')
        for m, x in x_in.items():
            (v,) = [v for a, v in wc.k_in.items() if a.index == m]
            close(v, x, f'wavenumbers of {m}', rtol=1e-9)
        for m, v in wc.r_common.items():
            close(v, r_out[m.index], f'separations of {m}', rtol=1e-9)
        if case['k_out'] == 'given':
            equal(wc.k_out, kw['k_out'], 'output wavenumbers')
        else:
            d = np.diff(np.log(wc.k_out))
            close(d, np.full(d.shape, d.mean()), 'output spacing', rtol=1e-6)
            close([wc.k_out[0], wc.k_out[-1]], [k_lo, k_hi],
                  'range of output wavenumbers', rtol=1e-8)
        k_out = np.asarray(wc.k_out)

        ic_kw = {}
        if dims == 2 and with_ic and case['ic'] is not None:
            ic_kw['ic'] = case['ic']
        ret = {'ret_xi' if dims == 1 else 'ret_zeta': True} \
            if case['ret'] else {}

        def reference():
            xi = {}
            for m, (t, pts) in back.items():
                b = B[m]
                if case['uneven']:
                    b = surface(ks[m], ks[m], b, s_k, x_in[m], x_in[m])
                v = np.real(t.transform_cosmo_multipoles(-1, b)[1])
                if dims == 2 and m[0] != m[1]:
                    v = surface(*pts, v, s_r, r_in[m], r_in[m])
                xi[m] = v
            ic = case['ic']
            if dims == 2 and with_ic and ic is None:
                ic = mean(rQ, Q, r_in, xi, 3)
            out, mid = {}, {}
            for h, ts in model.items():
                x = r_out[h]
                v = 0.
                for q, z, c in ts:
                    if dims == 1:
                        a = curve(rQ[q], Q[q], s_r, x)*curve(
                            r_in[z], xi[z], s_r, x)
                    else:
                        a = surface(rQ[q], rQ[q], Q[q], s_r, x, x)*(
                            ic if z == 'ic' else surface(
                                r_in[z], r_in[z], xi[z], s_r, x, x))
                    v = v + c*a
                mid[h] = v
                t, pts = fore[h]
                g = t.transform_cosmo_multipoles(1, v)[1]
                if dims == 1:
                    out[h] = sum(u*curve(pts[0], w, s_k, k_out) for u, w in
                                 ((1, g.real), (1j, g.imag)))
                else:
                    out[h] = sum(u*surface(*pts, w, s_k, k_out, k_out)
                                 for u, w in ((1, g.real), (1j, g.imag)))
            return out, mid

        def convolve():
            return wc.convolve(keyed(B, f[4]), **ic_kw, **ret)

        if dims == 2 and with_ic and case['ic'] is None and (
                zero not in need_z or zero not in need_q):
            expect_raises(ValueError, convolve, 'constraint, no monopole')
            return ok(False, 'no monopole')
        try:
            want, mid = reference()
        except MixedSignError:
            expect_raises(MixedSignError, convolve, 'signs')
            return ok(False, 'mixed signs')
        got = convolve()
    same([ks, rQ, Q, B], kept, 'arguments')
    got, xi = got if case['ret'] else (got, None)
    check({m.index for m in got} == set(model), f'{list(got)}')
    for m, v in got.items():
        w = want[m.index]
        close(v, w, f'convolved {m}', rtol=1e-6,
              scale=np.abs(w).max())
    if xi is not None:
        check({m.index for m in xi} == set(model), f'{list(xi)}')
        for m, v in xi.items():
            w = mid[m.index]
            close(v, w, f'intermediate {m}', rtol=1e-6, scale=np.abs(w).max())
    return ok(True, f'{dims}-d', case['k'], f"kwargs {case['kwargs']}",
              'uneven' if case['uneven'] else 'even')


# -- unit window ------------------------------------------------------------------------------

@st.composite
def unit_strategy(draw):
    return {'what': draw(gen.scalars('two', 'three', 'power', 'bispec')),
            'n': draw(gen.scalars(24, 32, 40)),
            'q': draw(gen.scalars(1., -2.)), 'seed': draw(gen.seeds())}


def run_unit(case):
    """A window without multipoles but a constant monopole."""
    from triumvirate import winconv
    rng = np.random.default_rng(case['seed'])
    what, n = case['what'], case['n']
    two = what in ('two', 'power')
    name = 'wilson+16' if two else 'sugiyama+19'
    model = model_of(name)
    need_q, need_z, _ = needs(model)
    wide = np.geomspace(1e-6, 1e8, 60)
    Q = {q: np.full((60,)*(1 if two else 2), case['q']*(not any(q)))
         for q in need_q}
    kw = {} if two else {'ic': 0.}
    if what in ('two', 'three'):
        x = grid(rng, n, 1., 50.)
        Z = {z: rng.normal(size=(n,)*(1 if two else 2)) for z in need_z}
        cls = winconv.TwoPCFWinConv if two else winconv.ThreePCFWinConv
        got = cls(name, wide, Q, x).convolve(Z, **kw)
        for m, v in got.items():
            close(v, case['q']*Z[m.index], f'{m} in a uniform window',
                  rtol=1e-8, scale='max')
        return ok(True, what)
    k = np.geomspace(1e-3, 1e3, 128 if two else 96)
    width = rng.uniform(.8, 1.5)
    Z = {z: k**max(z[:-1] or z)*np.exp(-(k/width)**2/2) if two else
         np.outer(k**z[0]*np.exp(-(k/width)**2/2),
                  k**z[1]*np.exp(-(k/width)**2/2)) for z in need_z}
    cls = winconv.PowspecWinConv if two else winconv.BispecWinConv
    use = k[(k > .1) & (k < 3.)]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = cls(name, wide, Q, k, k_out=use, spline=3, transform_kwargs={
            'extrap': 0, 'lowring': False, 'pivot': 1.}).convolve(Z, **kw)
    inside = np.isin(k, use)
    for m, v in got.items():
        w = Z[m.index][inside] if two else Z[m.index][np.ix_(inside, inside)]
        close(v, case['q']*w, f'{m} in a uniform window', rtol=1e-4,
              scale=np.abs(Z[m.index]).max())
    return ok(True, what)


# -- matrices ------------------------------------------------------------------------------------

@st.composite
def matrix_strategy(draw):
    case = draw(spectra_strategy(2))
    if not isinstance(case['formulae'], str) or draw(st.booleans()):
        pool = draw(gen.scalars(EVEN[:3], EVEN))
        case['formulae'] = draw(formulae_strategy(2, pool, most=2, rows=2))
    case['kwargs'] = draw(st.sampled_from([1, 1, 1, 6, 8, 2, 4]))
    case['n'] = draw(gen.scalars(4, 4, 6))
    case['flag'] = draw(gen.scalars(None, False, True))
    case['concat'] = draw(gen.scalars(None, False, True))
    case['diag'] = draw(gen.scalars(None, False, True))
    case['tries'] = draw(st.integers(0, 5))
    return case


def run_matrix(case):
    model, need_q, need_z, with_ic, ks, rQ, Q, B, kw, rng = prepare(case)
    from triumvirate.winconv import BispecWinConv
    f = case['forms']
    if not need_z or sum(len(x)**2 for x in ks.values()) > 200:
        return ok(False, 'too many columns')
    if case['r'] == 'none' and not set(model) <= set(need_z):
        return ok(False, 'open separations')
    zero = (0, 0, 0)
    if with_ic and case['flag'] and (
            zero not in need_z or zero not in need_q):
        return ok(False, 'no monopole')
    if case['r'] == 'given':
        kw['r_common'] = np.geomspace(2., 10., case['n'])
    if case['k_out'] == 'given':
        kw['k_out'] = np.linspace(.2, .4, 3)
    with warnings.catch_warnings(), contextlib.redirect_stdout(
            io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter('ignore')
        wc = BispecWinConv(
            formulae_of(case['formulae'], f[0], case['obj']),
            rQ[need_q[0]] if case['common_q'] else keyed(rQ, f[1]),
            keyed(Q, f[2]),
            ks[need_z[0]] if case['k'] == 'common' else keyed(ks, f[3]), **kw)
        if np.any(np.diff(wc.k_out) <= 0):
            return ok(False, 'disjoint ranges')
        opts = {n: case[c] for n, c in (
            ('ic', 'flag'), ('concat', 'concat'), ('diag', 'diag'))
            if case[c] is not None}
        got = wc.gen_winconv_mat(**opts)
    order = sorted(model, key=lambda m: m[-1:] + m[:-1])
    cols = sorted(need_z, key=lambda m: m[-1:] + m[:-1])
    nk = len(wc.k_out)
    if not case['concat']:
        check({m.index for m in got} == set(model), f'{list(got)}')
        rows = {m.index: v for m, v in got.items()}
    else:
        check(isinstance(got, np.ndarray), f'{type(got)}')
        check(len(got) == len(model)*(nk if case['diag'] else nk*nk),
              f'{got.shape}')
        rows = dict(zip(order, np.split(got, len(order))))
    ic_kw = {} if case['flag'] else {'ic': 0.}
    inputs = [B]
    for i in range(case['tries']):
        inputs.append({m: rng.normal(size=v.shape) for m, v in B.items()})
    # a single sample
    one = {m: np.zeros(v.shape) for m, v in B.items()}
    m = cols[int(rng.integers(len(cols)))]
    one[m][tuple(rng.integers(len(ks[m]), size=2))] = 1.
    inputs.append(one)
    for b in inputs:
        vector = np.concatenate([b[m].ravel() for m in cols])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            want = wc.convolve(b, **ic_kw)
        for m, w in want.items():
            v = np.diag(w) if case['diag'] else w.ravel()
            a = rows[m.index]
            check(a.shape == (v.size, vector.size),
                  f'matrix of {m}: {a.shape}')
            close(a @ vector, v, f'matrix of {m}', rtol=1e-7,
                  scale=(np.abs(a) @ np.abs(vector)).max())
    return ok(len(model) > 1 or len(need_z) > 1,
              'concatenated' if case['concat'] else 'separate',
              'diagonal' if case['diag'] else 'full',
              'constraint' if case['flag'] and with_ic else 'no constraint')


# -- invalid input ---------------------------------------------------------------------------------

@st.composite
def reject_strategy(draw):
    return {'dims': draw(gen.scalars(1, 2)),
            'what': draw(gen.scalars(
                'name', 'window', 'window points', 'input points', 'no input',
                'wavenumbers', 'uneven', 'r_common', 'size', 'diag size',
                'input')),
            'n': draw(st.integers(6, 10)), 'seed': draw(gen.seeds())}


def run_reject(case):
    from triumvirate import winconv
    from triumvirate._arrayops import SpacingError
    dims, what, n = case['dims'], case['what'], case['n']
    n += n % 2
    name = 'wilson+16' if dims == 1 else 'sugiyama+19'
    model = model_of(name)
    need_q, need_z, _ = needs(model)
    pick = np.random.default_rng(case['seed'])
    x = np.geomspace(1., 30., n)
    Q = {m: np.ones((n,)*dims) for m in need_q}
    Z = {m: np.ones((n,)*dims) for m in need_z}
    real = winconv.TwoPCFWinConv if dims == 1 else winconv.ThreePCFWinConv
    four = winconv.PowspecWinConv if dims == 1 else winconv.BispecWinConv
    cls = [real, four][case['seed'] % 2]

    def less(d):
        m = list(d)[int(pick.integers(len(d)))]
        return {k: v for k, v in d.items() if k != m}
    dropped = less(Q)
    pts = less({m: x for m in need_q})
    ins = less({m: x for m in need_z})
    uneven = np.linspace(1., 30., n)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if what == 'name':
            expect_raises(ValueError, lambda: cls('wilson', x, Q, x), what)
        elif what == 'window':
            expect_raises(ValueError, lambda: cls(name, x, dropped, x), what)
            expect_raises(ValueError, lambda: cls(
                name, {m: x for m in need_q}, dropped, x), what)
        elif what == 'window points':
            expect_raises(ValueError, lambda: cls(name, pts, Q, x), what)
        elif what in ('input points', 'wavenumbers'):
            expect_raises(ValueError, lambda: (
                real if what == 'input points' else four)(name, x, Q, ins),
                what)
        elif what == 'no input':
            z = (0,)*(2*dims - 1)
            expect_raises(ValueError, lambda: cls(
                {z: [(z, 'ic', -1)]}, x, Q, x), what)
        elif what == 'uneven':
            if dims == 1:
                expect_raises(SpacingError, lambda: four(
                    name, x, Q, uneven), what)
            else:
                wc = four(name, x, Q, uneven)
                for v in wc.k_in.values():
                    close(v, np.geomspace(1., 30., n), 'respaced', rtol=1e-9)
        elif what == 'r_common':
            expect_raises(SpacingError, lambda: four(
                name, x, Q, x, r_common=uneven), what)
        elif what == 'size':
            m = list(Z)[int(pick.integers(len(Z)))]
            bad = dict(Z)
            bad[m] = np.ones((n - 1,)*dims)
            wc = real(name, x, Q, x)
            expect_raises(ValueError, lambda: wc.convolve(
                bad, **({} if dims == 1 else {'ic': 0.})), what)
        elif what == 'diag size':
            if dims == 2:
                bad = {m: np.ones(n) for m in need_z}
                bad[list(Z)[int(pick.integers(len(Z)))]] = np.ones(n + 1)
                wc = real(name, x, Q, x)
                expect_raises(ValueError, lambda: wc.convolve_diag(
                    bad, ic=0.), what)
        else:
            wc = real(name, x, Q, x)
            expect_raises(KeyError, lambda: wc.convolve(
                less(Z), **({} if dims == 1 else {'ic': 0.})), what)
    return ok(True, what)


CHECKS = [
    Sub('conv', conv_strategy, run_conv, 1000, 40000, shards=3,
        rule='a formula of more than one term'),
    Sub('ic', ic_strategy, run_ic, 400, 15000,
        rule='more than one multipole in the mean'),
    Sub('spectra', spectra_strategy, run_spectra, 450, 20000, shards=3,
        rule='a convolution with a result'),
    Sub('unit', unit_strategy, run_unit, 50, 1000, rule='every case'),
    Sub('matrix', matrix_strategy, run_matrix, 150, 6000, shards=4,
        rule='more than one input or output multipole'),
    Sub('reject', reject_strategy, run_reject, 100, 2000, rule='every case'),
]
