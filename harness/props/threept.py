"""Shared generators and oracles of the three-point statistics."""
import numpy as np
from hypothesis import strategies as st

import gen
import meas
import ref3
import refmodel as rm
from core import Violation, close
from props import survey

# degrees whose coupling does not vanish
DEGREES = [(a, b, c) for a in range(4) for b in range(4) for c in range(5)
           if abs(a - b) <= c <= a + b and (a + b + c) % 2 == 0
           and a + b + c <= 8]
LOW = [d for d in DEGREES if sum(d) <= 4]


@st.composite
def extras(draw, nbins=3, many=None):
    out = {'deg': list(draw(st.one_of(st.sampled_from(LOW),
                                      st.sampled_from(DEGREES)))),
           'bins': draw(gen.many_bins(many) if many
                        else gen.binnings(nbins=nbins)),
           'form': draw(gen.scalars('diag', 'off-diag', 'row', 'full')),
           'pick': draw(st.integers(-(many or nbins), many or nbins)),
           'norm': draw(gen.scalars('none', 'none', 'particle')),
           'fftw': draw(gen.scalars('estimate', 'estimate', 'measure'))}
    return out


@st.composite
def box_case(draw):
    case = draw(gen.boxes(max_mesh=600, nmax=10))
    case.update(draw(gen.schemes()))
    case['cat'] = draw(gen.box_catalogue(nmax=15))
    case.update(draw(extras()))
    return case


@st.composite
def survey_case(draw, wa=False):
    case = draw(survey.base(nd=12, nr=20, max_mesh=600, nmax=10))
    case.update(draw(extras()))
    if wa:
        case['wa'] = draw(st.one_of(st.none(), st.tuples(
            st.integers(0, 2), st.integers(0, 2)).map(list)))
    return case


def whole(strategy, **kw):
    """The cases with whole-number cell sizes and separation bin edges."""
    return lambda: strategy(**kw).flatmap(gen.whole)


@st.composite
def large_box_case(draw):
    case = draw(gen.boxes(max_mesh=8000, nmin=12, nmax=24))
    case.update(draw(gen.schemes()))
    case['cat'] = draw(gen.box_catalogue(nmin=200, nmax=1500))
    case.update(draw(extras(many=8)))
    return case


@st.composite
def large_survey_case(draw, wa=False):
    case = draw(survey.large(8000, 12, 24, 800))
    case.update(draw(extras(many=8)))
    if wa:
        case['wa'] = draw(st.one_of(st.none(), st.tuples(
            st.integers(0, 2), st.integers(0, 2)).map(list)))
    return case


def index(case, n):
    """Legal bin index for the form."""
    p = case['pick']
    if case['form'] == 'off-diag':
        return p if abs(p) < n else (p % n)
    if case['form'] == 'row':
        return p % n
    return 0


def edges_fourier(case, mesh):
    # below the Nyquist wavenumber of every axis
    limit = 0.999*min(np.pi*mesh.N/mesh.L)
    return gen.make_edges(case['bins'], mesh.k, 2*np.pi/max(mesh.L), 2e-5,
                          limit=limit)


def edges_config(case, mesh):
    return gen.make_edges(case['bins'], mesh.r, max(mesh.L/mesh.N), 0.,
                          quantum=1.)


def degrees(case):
    return dict(zip(('ell1', 'ell2', 'ELL'), case['deg']))


def compare(res, ref, space, norm, what, shot0, floor=1.):
    """Judge a three-point result against the reference."""
    n = len(ref['bin1'])
    got = meas.threept(res, what, n, space)
    if space == 'fourier':
        c, e, m, v, s = 'k%d_bin', 'k%d_eff', 'nmodes_%d', 'bk_raw', 'bk_shot'
    else:
        c, e, m, v, s = ('r%d_bin', 'r%d_eff', 'npairs_%d', 'zeta_raw',
                         'zeta_shot')
    ok_ = ref['valid']
    for i in (1, 2):
        close(got[c % i], ref[f'bin{i}'], f'{what} {c % i}', rtol=1e-9)
        if not np.array_equal(got[m % i], ref[f'n{i}']):
            raise Violation(f'{what} {m % i}: got {list(got[m % i])}, '
                            f"expected {list(ref[f'n{i}'])}")
        close(got[e % i][ok_], ref[f'eff{i}'][ok_], f'{what} {e % i}',
              rtol=1e-9)
    a = abs(norm)
    for key, name in ((v, 'raw'), (s, 'shot')):
        val, exp = got[key][ok_], norm*ref[name][ok_]
        mag = a*ref[name + 'mag'][ok_]
        slack = a*ref.get(name + 'slack', np.zeros(n))[ok_]
        tol = 3e-7*mag.max() if len(mag) else 0.
        tol += 1e-10*a*shot0*floor
        bad = ~(np.abs(val - exp) <= tol + 2.5*slack)
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            raise Violation(
                f'{what} {key}: bin pair {i} got {val[i]!r}, expected '
                f'{exp[i]!r} ({int(bad.sum())} of {len(val)} differ)')


def labels(case):
    return [case['assignment'], f"interlace={case['interlace']}",
            case['form'], 'deg=' + ''.join(map(str, case['deg']))]


def box_setup(case):
    L, N = case['boxsize'], case['ngrid']
    pos = gen.expand_box(case['cat'], L, N,
                         avoid_ties=case['assignment'] == 'ngp')
    # interlacing is documented as switched off for three-point statistics
    mesh = rm.Mesh(L, N, case['assignment'], False)
    return pos, mesh


def measure(func, cats, case, stat, cattype, made, los=None, **kw):
    n = made[3]
    space = 'fourier' if stat == 'bispec' else 'config'
    idx = index(case, n)
    params = gen.paramset(case, stat, cattype, made, degrees(case),
                          form=case['form'], idx_bin=idx, norm=case['norm'])
    binning = gen.make_binning(space, made) if made[0] == 'custom' else None
    return meas.call(func, *cats, paramset=params, binning=binning,
                     **(los or {}), **kw)


def run_box(func, case, stat, what):
    pos, mesh = box_setup(case)
    n = len(pos)
    fourier = stat == 'bispec'
    made = (edges_fourier if fourier else edges_config)(case, mesh)
    res = measure(func, [gen.catalogue(dict(pos=pos))], case, stat, 'sim',
                  made)
    fields = ref3.Fields(mesh, 'box',
                         data=gen.placed_in_box(pos, case['boxsize']))
    ref = (ref3.bispec if fourier else ref3.corrfunc)(
        fields, case['deg'], made[4], case['form'], index(case, made[3]))
    norm = 1. if case['norm'] == 'none' else mesh.vol**2/n**3
    compare(res, ref, 'fourier' if fourier else 'config', norm, what, n,
            1. if fourier else mesh.vol_cell**-2)
    return ref


def run_survey(func, case, stat, what):
    data, rand, sd, sr = survey.setup(case)
    mesh = rm.Mesh(case['boxsize'], case['ngrid'], case['assignment'])
    fourier = stat == 'bispec'
    made = (edges_fourier if fourier else edges_config)(case, mesh)
    res = measure(func, [gen.catalogue(data), gen.catalogue(rand)], case,
                  stat, 'survey', made, survey.los_args(data, rand))
    fields = ref3.Fields(mesh, 'survey', data=sd, rand=sr)
    ref = (ref3.bispec if fourier else ref3.corrfunc)(
        fields, case['deg'], made[4], case['form'], index(case, made[3]))
    norm = 1. if case['norm'] == 'none' else rm.norm_particles(
        sr, fields.alpha, 3)
    compare(res, ref, 'fourier' if fourier else 'config', norm, what,
            np.sum(sd.w**3), 1. if fourier else mesh.vol_cell**-2)
    return ref


def run_window(func, case, what):
    rand, los, src = survey.window_setup(case)
    mesh = rm.Mesh(case['boxsize'], case['ngrid'], case['assignment'])
    made = edges_config(case, mesh)
    kw = {}
    if case.get('wa') is not None:
        kw['wa_orders'] = tuple(case['wa'])
    res = measure(func, [gen.catalogue(rand)], case, '3pcf-win', 'random',
                  made, {} if los is None else {'los_rand': los.copy()}, **kw)
    fields = ref3.Fields(mesh, 'window', rand=src, wa=case.get('wa'))
    ref = ref3.corrfunc(fields, case['deg'], made[4], case['form'],
                        index(case, made[3]))
    norm = 1. if case['norm'] == 'none' else rm.norm_particles(src, 1., 3)
    compare(res, ref, 'config', norm, what, np.sum(src.w**3),
            mesh.vol_cell**-2)
    return ref
