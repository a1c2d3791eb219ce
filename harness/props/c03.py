"""C03: periodic-box power spectrum against the numpy reference model."""
import numpy as np
from hypothesis import strategies as st

import gen
import meas
import refmodel as rm
from core import Sub, close, ok

TARGETS = ['py']
ASSUMPTIONS = [
    'Even mesh grid numbers; bin edges further than 2e-5 from every mode '
    'length (the implementation quantises lengths by 1e-5); particles not '
    'exactly midway between grid points under nearest-grid-point assignment.',
]


def strategy(large=False, **kw):
    @st.composite
    def build(draw):
        case = draw(gen.boxes(**kw))
        case.update(draw(gen.schemes()))
        case['cat'] = draw(gen.box_catalogue(nmin=500, nmax=4000) if large
                           else gen.box_catalogue())
        case['ell'] = draw(gen.scalars(0, 0, 1, 2, 3, 4, 5, 6))
        case['bins'] = draw(gen.many_bins(24) if large else gen.binnings())
        case['norm'] = draw(gen.scalars('none', 'particle'))
        case['fftw'] = draw(gen.scalars('estimate', 'estimate', 'measure'))
        return case
    return build()


def run(case):
    from triumvirate.twopt import compute_powspec_in_gpp_box
    L, N = case['boxsize'], case['ngrid']
    ngp = case['assignment'] == 'ngp'
    pos = gen.expand_box(case['cat'], L, N, avoid_ties=ngp)
    n = len(pos)
    mesh = rm.Mesh(L, N, case['assignment'], case['interlace'])
    made = gen.make_edges(case['bins'], mesh.k, 2*np.pi/max(L), 2e-5)
    edges = made[4]
    cat = gen.catalogue(dict(pos=pos))
    params = gen.paramset(case, 'powspec', 'sim', made,
                          {'ELL': case['ell']}, norm=case['norm'])
    binning = gen.make_binning('fourier', made) \
        if made[0] == 'custom' else None
    res = meas.call(compute_powspec_in_gpp_box, cat, paramset=params,
                    binning=binning)
    got = meas.twopt(res, 'power spectrum', made[3], 'fourier')
    placed = gen.placed_in_box(pos, L)
    ref = rm.powspec_box(mesh, placed, case['ell'], edges,
                         gen.centres(edges))
    ref['bin'] = gen.centres(edges)
    meas.compare_coords(got, ref, 'power spectrum', 'fourier')
    norm = 1. if case['norm'] == 'none' else mesh.vol/n**2
    scale = norm*(2*case['ell'] + 1)*max(
        np.abs(ref['raw']).max(), n)/(2*case['ell'] + 1)
    close(got['pk_raw'], norm*ref['raw'], 'raw power', rtol=1e-7,
          scale=scale)
    close(got['pk_shot'], norm*ref['shot'], 'shot noise', rtol=1e-7,
          scale=scale)
    return ok(np.any(ref['nmodes'] > 0) and np.any(np.abs(ref['raw']) > 0),
              case['assignment'], f"interlace={case['interlace']}",
              f"ell={case['ell']}", f"pinned={case['cat']['pinned']}")



CHECKS = [
    Sub('powspec', lambda: strategy(), run, quick=2400, thorough=120000,
        shards=8, tshards=8,
        rule='random particle sets (uniform, clustered, collinear, pinned to '
             'cell edges), boxes, grids, schemes, degrees, binnings; '
             'non-trivial if some bin has modes and power'),
    Sub('large', lambda: strategy(True, max_mesh=40000, nmin=14, nmax=48),
        run, quick=160, thorough=6000, shards=4,
        rule='the same with large meshes, many particles and bins'),
]
