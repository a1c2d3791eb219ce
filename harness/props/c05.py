"""C05: two-point correlation functions of boxes, surveys and windows."""
import numpy as np
from hypothesis import strategies as st

import gen
import meas
import refmodel as rm
from core import Sub, close, ok
from props import survey

TARGETS = ['py']
ASSUMPTIONS = [
    'Even mesh grid numbers; bin edges further than 0.1 from every mesh '
    'separation (the implementation quantises separations by 0.1 length '
    'units), or cell sizes and bin edges that are whole numbers of length '
    'units.',
]
TOL = 0.1001


def edges_of(case, mesh):
    return gen.make_edges(case['bins'], mesh.r, max(mesh.L/mesh.N), TOL)


@st.composite
def box_strategy(draw, large=False):
    case = draw(gen.boxes(max_mesh=40000, nmin=14, nmax=48) if large
                else gen.boxes())
    case.update(draw(gen.schemes()))
    case['cat'] = draw(gen.box_catalogue(nmin=500, nmax=4000) if large
                       else gen.box_catalogue())
    case['ell'] = draw(gen.scalars(0, 0, 1, 2, 3, 4))
    case['bins'] = draw(gen.many_bins(24) if large else gen.binnings())
    case['norm'] = draw(gen.scalars('none', 'particle'))
    case['fftw'] = draw(gen.scalars('estimate', 'estimate', 'measure'))
    return case


@st.composite
def survey_strategy(draw, large=False):
    case = draw(survey.large(40000) if large else survey.base())
    case['ell'] = draw(gen.scalars(0, 1, 2, 2, 3, 4))
    case['bins'] = draw(gen.many_bins(24) if large else gen.binnings())
    case['norm'] = draw(gen.scalars('none', 'none', 'particle'))
    case['fftw'] = draw(gen.scalars('estimate', 'estimate', 'measure'))
    return case


def judge(res, ref, made, norm, scale0, what):
    got = meas.twopt(res, what, made[3], 'config')
    ref['bin'] = gen.centres(made[4])
    meas.compare_coords(got, ref, what, 'config')
    scale = abs(norm)*max(np.abs(ref['xi']).max(), scale0)
    close(got['xi'], norm*ref['xi'], what, rtol=1e-7, scale=scale)


def run_box(case):
    from triumvirate.twopt import compute_corrfunc_in_gpp_box
    L, N = case['boxsize'], case['ngrid']
    pos = gen.expand_box(case['cat'], L, N,
                         avoid_ties=case['assignment'] == 'ngp')
    n = len(pos)
    mesh = rm.Mesh(L, N, case['assignment'], case['interlace'])
    made = edges_of(case, mesh)
    params = gen.paramset(case, '2pcf', 'sim', made, {'ELL': case['ell']},
                          norm=case['norm'])
    binning = gen.make_binning('config', made) \
        if made[0] == 'custom' else None
    res = meas.call(compute_corrfunc_in_gpp_box,
                    gen.catalogue(dict(pos=pos)), paramset=params,
                    binning=binning)
    ref = rm.corrfunc_box(mesh, gen.placed_in_box(pos, L), case['ell'],
                          made[4], gen.centres(made[4]))
    norm = 1. if case['norm'] == 'none' else mesh.vol/n**2
    judge(res, ref, made, norm, n/mesh.vol*1e-2, 'box correlation')
    return ok(np.any(ref['npairs'] > 0), case['assignment'],
              f"interlace={case['interlace']}", f"ell={case['ell']}")


def run_survey(case):
    from triumvirate.twopt import compute_corrfunc
    data, rand, sd, sr = survey.setup(case)
    mesh = survey.mesh_of(case)
    made = edges_of(case, mesh)
    params = gen.paramset(case, '2pcf', 'survey', made,
                          {'ELL': case['ell']}, norm=case['norm'])
    binning = gen.make_binning('config', made) \
        if made[0] == 'custom' else None
    res = meas.call(compute_corrfunc, gen.catalogue(data),
                    gen.catalogue(rand), paramset=params, binning=binning,
                    **survey.los_args(data, rand))
    ref = rm.corrfunc_survey(mesh, sd, sr, case['ell'], made[4],
                             gen.centres(made[4]))
    alpha = rm.alpha_of(sd, sr)
    norm = 1. if case['norm'] == 'none' else rm.norm_particles(sr, alpha, 2)
    judge(res, ref, made, norm,
          abs(rm.shot_amp(sd, sr, alpha, 0, 0))/mesh.vol*1e-2,
          'survey correlation')
    return ok(np.any(ref['npairs'] > 0), f"ell={case['ell']}",
              *survey.labels(case))


def run_window(case):
    from triumvirate.twopt import compute_corrfunc_window
    rand, los, src = survey.window_setup(case)
    mesh = survey.mesh_of(case)
    made = edges_of(case, mesh)
    params = gen.paramset(case, '2pcf-win', 'random', made,
                          {'ELL': case['ell']}, norm=case['norm'])
    binning = gen.make_binning('config', made) \
        if made[0] == 'custom' else None
    kw = {} if los is None else {'los_rand': los.copy()}
    res = meas.call(compute_corrfunc_window, gen.catalogue(rand),
                    paramset=params, binning=binning, **kw)
    ref = rm.corrfunc_survey(mesh, None, src, case['ell'], made[4],
                             gen.centres(made[4]), alpha=1.)
    norm = 1. if case['norm'] == 'none' else rm.norm_particles(src, 1., 2)
    judge(res, ref, made, norm,
          abs(rm.shot_amp(None, src, 1., 0, 0))/mesh.vol*1e-2, 'window')
    return ok(np.any(ref['npairs'] > 0), f"ell={case['ell']}",
              *survey.labels(case))


def whole(strategy):
    return lambda: strategy().flatmap(gen.whole)


RULE = ('random catalogues, boxes, grids, schemes, degrees and binnings; '
        'non-trivial if some bin holds separations')
WHOLE = 'the same with cell sizes and bin edges that are whole numbers'
CHECKS = [
    Sub('box', box_strategy, run_box, quick=800, thorough=60000,
        shards=3, rule=RULE),
    Sub('survey', survey_strategy, run_survey, quick=700, thorough=50000,
        shards=4, rule=RULE),
    Sub('window', survey_strategy, run_window, quick=500, thorough=40000,
        shards=2, rule=RULE),
    Sub('whole-box', whole(box_strategy), run_box, quick=250, thorough=20000,
        shards=2, rule=WHOLE),
    Sub('whole-survey', whole(survey_strategy), run_survey, quick=250,
        thorough=20000, shards=2, rule=WHOLE),
    Sub('whole-window', whole(survey_strategy), run_window, quick=250,
        thorough=20000, shards=2, rule=WHOLE),
    Sub('large-box', lambda: box_strategy(True), run_box, quick=80,
        thorough=2000, shards=2, rule=RULE),
    Sub('large-survey', lambda: survey_strategy(True), run_survey, quick=80,
        thorough=2000, shards=2, rule=RULE),
    Sub('large-window', lambda: survey_strategy(True), run_window, quick=80,
        thorough=2000, shards=2, rule=RULE),
    Sub('beyond', survey.beyond(survey_strategy), run_survey, quick=150,
        thorough=10000, shards=1, rule=survey.BEYOND),
]
