"""C04: survey power spectrum multipoles against the reference model."""
import numpy as np
from hypothesis import strategies as st

import gen
import meas
import refmodel as rm
from core import Sub, close, ok
from props import survey

TARGETS = ['py']
ASSUMPTIONS = [
    'Even mesh grid numbers; randoms define the coordinate extents and lie '
    'in the box; bin edges further than 2e-5 from every mode length.',
]


@st.composite
def strategy(draw, large=False):
    case = draw(survey.large(40000) if large else survey.base())
    case['ell'] = draw(gen.scalars(0, 1, 2, 2, 3, 4, 5))
    case['bins'] = draw(gen.many_bins(24) if large else gen.binnings())
    case['norm'] = draw(gen.scalars('none', 'none', 'particle'))
    case['fftw'] = draw(gen.scalars('estimate', 'estimate', 'measure'))
    return case


def run(case):
    from triumvirate.twopt import compute_powspec
    data, rand, sd, sr = survey.setup(case)
    mesh = survey.mesh_of(case)
    made = gen.make_edges(case['bins'], mesh.k,
                          2*np.pi/max(case['boxsize']), 2e-5)
    params = gen.paramset(case, 'powspec', 'survey', made,
                          {'ELL': case['ell']}, norm=case['norm'])
    binning = gen.make_binning('fourier', made) \
        if made[0] == 'custom' else None
    res = meas.call(compute_powspec, gen.catalogue(data),
                    gen.catalogue(rand), paramset=params, binning=binning,
                    **survey.los_args(data, rand))
    got = meas.twopt(res, 'power spectrum', made[3], 'fourier')
    ref = rm.powspec_survey(mesh, sd, sr, case['ell'], made[4],
                            gen.centres(made[4]))
    ref['bin'] = gen.centres(made[4])
    meas.compare_coords(got, ref, 'power spectrum', 'fourier')
    alpha = rm.alpha_of(sd, sr)
    norm = 1. if case['norm'] == 'none' else rm.norm_particles(sr, alpha, 2)
    shot0 = abs(rm.shot_amp(sd, sr, alpha, 0, 0))
    scale = norm*max(np.abs(ref['raw']).max(), shot0)
    close(got['pk_raw'], norm*ref['raw'], 'raw power', rtol=1e-7,
          scale=scale)
    close(got['pk_shot'], norm*ref['shot'], 'shot noise', rtol=1e-7,
          scale=scale)
    return ok(np.any(ref['nmodes'] > 0), f"ell={case['ell']}",
              *survey.labels(case))


CHECKS = [
    Sub('powspec', strategy, run, quick=1200, thorough=60000,
        shards=8, tshards=8,
        rule='random data/random pairs with weights, lines of sight, '
             'alignments, grids, schemes, degrees 0-5, binnings; '
             'non-trivial if some bin has modes'),
    Sub('large', lambda: strategy(True), run, quick=160, thorough=6000,
        shards=4,
        rule='the same with large meshes, many particles and bins'),
    Sub('beyond', survey.beyond(strategy), run, quick=200, thorough=12000,
        shards=2, rule=survey.BEYOND),
]
