"""Case generators (Hypothesis strategies of JSON-able dicts) and builders.

A case never holds arrays: catalogues are described by an integer seed, a
particle count and a few explicit special particles, all drawn by
Hypothesis, and are expanded deterministically by `expand_*`.
"""
import warnings

import numpy as np
from hypothesis import strategies as st

import refmodel as rm
from core import HarnessError

AXES = ['x', 'y', 'z']
# exactly representable fractions of a cell, including cell edges
FRACS = [0., 0.25, 0.5, 0.75, 1., 1.5, 2., 3.25]


def scalars(*vals):
    return st.sampled_from(list(vals))


@st.composite
def boxes(draw, max_mesh=1500, nmin=4, nmax=14, big=True):
    """Box sizes and grid numbers (mostly even)."""
    sizes = [64., 128., 100., 250., 333.3, 512., 1000.]
    if not big:
        sizes = [64., 100., 128., 250., 333.3]
    iso = draw(st.booleans())
    evens = [n for n in (4, 6, 8, 10, 12, 14, 16, 18, 20, 24, 30, 32, 40, 48)
             if nmin <= n <= nmax]
    while True:
        if iso:
            n = draw(st.sampled_from(evens))
            ngrid = [n]*3
            boxsize = [draw(st.sampled_from(sizes))]*3
        else:
            ngrid = [draw(st.sampled_from(evens)) for _ in range(3)]
            boxsize = [draw(st.sampled_from(sizes)) for _ in range(3)]
        if draw(scalars(False, False, False, True)):
            odd = [n + draw(scalars(0, 1, 1)) for n in ngrid]
            ngrid = odd if np.prod(odd) <= max_mesh else [
                n - (n > nmin) for n in ngrid]
        if nmin <= 4 and draw(scalars(*[False]*7, True)):
            ngrid = list(ngrid)
            ngrid[draw(scalars(0, 1, 2))] = draw(scalars(2, 3))
        if np.prod(ngrid) <= max_mesh:
            return {'boxsize': boxsize, 'ngrid': ngrid}
        # too large a mesh: smallest grid instead of rejecting
        return {'boxsize': boxsize, 'ngrid': [evens[0], evens[1 % len(evens)],
                                              evens[0]]}


def many_bins(most):
    return binnings(nbins=most, nmin=5, his=(4.6, 7.3, 11.2))


def schemes():
    return st.fixed_dictionaries({
        'assignment': scalars('ngp', 'cic', 'tsc', 'pcs'),
        'interlace': scalars(False, False, True),
    })


def seeds():
    return st.integers(0, 2**31 - 1)


@st.composite
def box_catalogue(draw, nmax=40, nmin=2):
    """Particles for a periodic box, in units of the box."""
    n = draw(st.one_of(st.integers(nmin, nmin + 4), st.integers(nmin, nmax)))
    return {
        'n': n, 'seed': draw(seeds()),
        'kind': draw(scalars('uniform', 'cluster', 'line')),
        # pinned: particles at both extreme corners, so that centring is
        # the identity and special positions stay where they are
        'pinned': draw(st.booleans()),
        'offset': draw(scalars(0., 0., -1000., 12345.6)),
        'special': draw(st.lists(st.tuples(
            *[st.tuples(st.integers(0, 16), st.sampled_from(FRACS))
              for _ in range(3)]).map(list), max_size=4)),
    }


def expand_box(cat, boxsize, ngrid, avoid_ties=False):
    """Positions of a box catalogue, before periodising."""
    rng = np.random.RandomState(cat['seed'])
    n = cat['n']
    L = np.asarray(boxsize, float)
    N = np.asarray(ngrid)
    if cat['kind'] == 'uniform':
        pos = rng.random_sample((n, 3))
    elif cat['kind'] == 'cluster':
        pos = 0.5 + 0.12*rng.standard_normal((n, 3))
        pos = np.clip(pos, 0.001, 0.999)
    else:
        pos = np.repeat(rng.random_sample((n, 1)), 3, axis=1)
        pos += 0.01*rng.random_sample((n, 3))
        pos = np.clip(pos, 0., 0.999)
    pos = pos * L
    if cat['pinned'] and not avoid_ties:
        extra = [np.zeros(3), L.copy()]
        for sp in cat['special']:
            cell = np.array([(i % m) + f for (i, f), m in zip(sp, N)])
            extra.append(np.minimum(cell * L / N, L))
        pos = np.vstack([pos, extra])
    else:
        pos = pos + cat['offset']
    return pos


def placed_in_box(pos, boxsize):
    """Where periodising must put box particles (independent model)."""
    L = np.asarray(boxsize, float)
    mid = (pos.max(axis=0) + pos.min(axis=0)) / 2
    return np.mod(pos + L/2 - mid, L)


WKINDS = ['unit', 'ws', 'wc', 'both', 'both']


@st.composite
def survey_pair(draw, nd=30, nr=60, nmin=2):
    return {
        'nd': draw(st.integers(nmin, nd)),
        'nr': draw(st.integers(nmin + 1, nr)),
        'seed': draw(seeds()),
        'fill': [draw(scalars(0.3, 0.6, 0.9, 1.)) for _ in range(3)],
        'origin': [draw(scalars(0., -30., 400., -2500.)) for _ in range(3)],
        'w': draw(st.sampled_from(WKINDS)),
        'zero_w': draw(st.booleans()),
        'los': draw(scalars('auto', 'auto', 'explicit', 'global')),
    }


def weights(rng, n, kind, zero):
    ws = np.ones(n)
    wc = np.ones(n)
    if kind in ('ws', 'both'):
        ws = rng.uniform(0.2, 2.5, n)
    if kind in ('wc', 'both'):
        wc = rng.uniform(0.1, 1.5, n)
    if zero and n > 2:
        ws[rng.randint(0, n)] = 0.
        if n > 3 and kind in ('wc', 'both'):
            wc[rng.randint(0, n)] = 0.
    return ws, wc


def unit(v):
    norm = np.sqrt(np.sum(v**2, axis=1, keepdims=True))
    return np.where(norm > 0, v / np.where(norm == 0, 1, norm), 0.)


def expand_survey(cat, boxsize, padfrac=(0., 0., 0.)):
    """Data and random catalogues: dicts of columns plus lines of sight."""
    rng = np.random.RandomState(cat['seed'])
    L = np.asarray(boxsize, float)
    span = np.array(cat['fill']) * L * (1 - np.asarray(padfrac)) * 0.999
    origin = np.array(cat['origin'])
    out = []
    for n, is_rand in ((cat['nd'], False), (cat['nr'], True)):
        pos = rng.random_sample((n, 3))
        if is_rand:
            pos[0], pos[1] = 0., 1.   # randoms define the extents
        pos = origin + pos*span
        ws, wc = weights(rng, n, cat['w'], cat['zero_w'])
        nz = rng.uniform(0.5, 1.5, n) * 1e-4
        if cat['los'] == 'explicit':
            los = unit(rng.standard_normal((n, 3)))
        elif cat['los'] == 'global':
            los = np.tile([0., 0., 1.], (n, 1))
        else:
            los = None
        out.append(dict(pos=pos, ws=ws, wc=wc, nz=nz, los=los))
    return out


def catalogue(cols, logger=None):
    from triumvirate.catalogue import ParticleCatalogue
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return ParticleCatalogue(
            cols['pos'][:, 0].copy(), cols['pos'][:, 1].copy(),
            cols['pos'][:, 2].copy(), nz=cols.get('nz'),
            ws=cols.get('ws', 1.), wc=cols.get('wc', 1.), logger=logger)


def positions(cat):
    return np.stack([np.asarray(cat[ax]) for ax in AXES], axis=1)


def align(data, rand, boxsize, ngrid, alignment='centre', padscale='box',
          padfactor=0.):
    """Model of catalogue alignment: the common displacement."""
    L = np.asarray(boxsize, float)
    lo, hi = rand.min(axis=0), rand.max(axis=0)
    if alignment == 'centre':
        shift = L/2 - (lo + hi)/2
    elif padscale == 'box':
        shift = padfactor*L - lo
    else:
        shift = padfactor*L/np.asarray(ngrid) - lo
    return data + shift, rand + shift


# -- binning ---------------------------------------------------------------

@st.composite
def binnings(draw, nbins=4, zero=True, nmin=2, his=(2.2, 3.3, 4.6)):
    return {
        'kind': draw(scalars('lin', 'lin', 'log', 'custom')),
        'n': draw(st.integers(nmin, nbins)),
        'lo': draw(scalars(0., 0.5, 1., 1.7) if zero
                   else scalars(0.5, 1., 1.7)),
        'hi': draw(scalars(*his)),
        'cuts': draw(st.lists(st.floats(0.02, 0.98), min_size=nmin - 1,
                              max_size=nbins)),
    }


@st.composite
def whole(draw, case, nbins=3):
    """The case on a mesh of whole-number cells, with separation bin edges
    at whole numbers (so that many separations lie exactly on an edge)."""
    cell = draw(st.integers(1, 12))
    cells = [cell if draw(st.booleans()) else draw(st.integers(1, 12))
             for _ in range(3)]
    case['boxsize'] = [float(c*n) for c, n in zip(cells, case['ngrid'])]
    top = max(cells)
    lo = draw(st.one_of(st.just(0), st.just(cell), st.integers(0, 2*top)))
    steps = draw(st.lists(st.one_of(
        st.just(cell), st.just(5*cells[0]), st.integers(1, 2*top)),
        min_size=2, max_size=nbins))
    custom = draw(st.booleans())
    if not custom:
        steps = steps[:1]*len(steps)
    edges = [lo]
    for step in steps:
        edges.append(edges[-1] + step)
    case['bins'] = {'kind': 'whole', 'custom': custom, 'edges': edges}
    return case


def _safe(edges, scale, tol, quantum=None):
    """No edge is within `tol` of a scale; with `quantum`, no edge separates
    a scale from the multiple of `quantum` below it."""
    e = np.asarray(edges)[:, None]
    s = scale[None, :]
    if quantum:
        low = np.floor((s - 1e-6)/quantum)*quantum
        return not np.any((low - 1e-6 < e) & (e < s + 1e-6))
    return np.min(np.abs(e - s)) > tol


def make_edges(spec, scales, unit_scale, tol, limit=None, quantum=None):
    """(kind, min, max, n, edges) with no edge within `tol` of a scale.

    `scales` are the distinct mode or separation lengths; `limit` bounds the
    upper edge.
    """
    if spec['kind'] == 'whole':
        edges = np.array(spec['edges'], float)
        return ('custom' if spec['custom'] else 'lin', edges[0], edges[-1],
                len(edges) - 1, edges)
    scales = np.unique(np.round(scales.ravel(), 12))
    if limit is None:
        limit = np.inf
    if spec['kind'] == 'custom':
        gaps = np.flatnonzero(np.diff(scales) > 4*tol)
        mids = (scales[gaps] + scales[gaps + 1]) / 2
        if quantum:
            mids = np.floor(scales[gaps + 1]/quantum - 1e-6)*quantum \
                - 0.4*quantum
            mids = np.array([m for m in mids if _safe(
                [m], scales, tol, quantum)])
        mids = mids[mids < limit]
        cuts = sorted(set(int(c*len(mids)) for c in spec['cuts']))
        edges = list(mids[cuts])
        if len(edges) < 2:
            edges = [edges[0]*0.37 if edges[0]*0.37 > 0 else 0., edges[0]]
            if not _safe(edges[:1], scales, tol, quantum):
                edges[0] = 0.
        if (spec['lo'] == 0. or len(edges) < 3) and edges[0] > 0:
            edges = [0.] + edges
        if len(edges) < 3:
            edges = [edges[0], edges[1], edges[1]*1.7]
            i = 0
            while not _safe(edges[2:], scales, tol, quantum) or edges[2] > limit:
                i += 1
                edges[2] = edges[1] * (1.7 - 0.69*((i*0.618) % 1.))
                if i > 500:
                    edges[2] = scales.max()*1.01 + 2*(quantum or tol)
                    break
        return 'custom', edges[0], edges[-1], len(edges) - 1, \
            np.array(edges)
    lo, hi, n = spec['lo']*unit_scale, spec['hi']*unit_scale, spec['n']
    hi = min(hi, limit)
    if lo >= hi:
        lo = 0.5*hi
    kind = spec['kind']
    if kind == 'log' and lo == 0.:
        lo = 0.3*unit_scale
        lo = min(lo, 0.5*hi)
    lo0 = lo
    for i in range(400 if quantum else 2000):
        f = 1 - 1e-3*((i * 0.6180339887) % 1.) * 200
        top = hi*f
        low = lo0 * (1 - 0.3*((i * 0.41421356) % 1.))
        if kind == 'lin':
            edges = np.linspace(low, top, n + 1)
        else:
            edges = np.exp(np.linspace(np.log(low), np.log(top), n + 1))
        nz = edges[edges > 0]
        if _safe(nz, scales, tol, quantum):
            return kind, float(low), float(top), n, edges
    return make_edges(dict(spec, kind='custom'), scales, unit_scale, tol,
                      limit, quantum)


def centres(edges):
    return (edges[1:] + edges[:-1]) / 2


def make_binning(space, made):
    from triumvirate.dataobjs import Binning
    kind, lo, hi, n, edges = made
    if kind == 'custom':
        b = Binning(space, 'lin')
        b.set_custom_bins(np.array(edges))
        return b
    return Binning(space, kind, bin_min=lo, bin_max=hi, num_bins=n)


# -- parameters ------------------------------------------------------------

def param_dict(case, statistic, cattype, made, degrees, form=None,
               idx_bin=None, norm='none', wa=None, **more):
    """Full parameter mapping of a measurement."""
    from triumvirate.parameters import fetch_paramset_template
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = fetch_paramset_template('dict')
    kind, lo, hi, n, edges = made
    p['boxsize'] = dict(zip(AXES, map(float, case['boxsize'])))
    p['ngrid'] = dict(zip(AXES, map(int, case['ngrid'])))
    p['assignment'] = case['assignment']
    p['interlace'] = case['interlace']
    p['alignment'] = case.get('alignment', 'centre')
    if 'padscale' in case:
        p['padscale'] = case['padscale']
        p['padfactor'] = case['padfactor']
    p['catalogue_type'] = cattype
    p['statistic_type'] = statistic
    p['degrees'] = dict(p['degrees'])
    p['degrees'].update(degrees)
    p['norm_convention'] = norm
    p['binning'] = kind if kind != 'custom' else 'lin'
    p['range'] = [float(lo), float(hi)]
    p['num_bins'] = int(n)
    if form is not None:
        p['form'] = form
    if idx_bin is not None:
        p['idx_bin'] = idx_bin
    if wa is not None:
        p['wa_orders'] = wa
    p['fftw_scheme'] = case.get('fftw', 'estimate')
    p['verbose'] = case.get('verbose', 60)
    p['progbar'] = False
    p.update(more)
    return p


def paramset(*args, **kwargs):
    from triumvirate.parameters import ParameterSet
    return ParameterSet(param_dict=param_dict(*args, **kwargs))
