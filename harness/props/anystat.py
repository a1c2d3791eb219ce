"""One interface to the ten clustering statistics."""
import numpy as np
from hypothesis import strategies as st

import gen
import meas
import refmodel as rm
from props import survey, threept

# name: (module, function, statistic type, catalogue type, points)
STATS = {
    'powspec-survey': ('twopt', 'compute_powspec', 'powspec', 'survey', 2),
    'powspec-box': ('twopt', 'compute_powspec_in_gpp_box', 'powspec', 'sim',
                    2),
    '2pcf-survey': ('twopt', 'compute_corrfunc', '2pcf', 'survey', 2),
    '2pcf-box': ('twopt', 'compute_corrfunc_in_gpp_box', '2pcf', 'sim', 2),
    '2pcf-window': ('twopt', 'compute_corrfunc_window', '2pcf-win',
                    'random', 2),
    'bispec-survey': ('threept', 'compute_bispec', 'bispec', 'survey', 3),
    'bispec-box': ('threept', 'compute_bispec_in_gpp_box', 'bispec', 'sim',
                   3),
    '3pcf-survey': ('threept', 'compute_3pcf', '3pcf', 'survey', 3),
    '3pcf-box': ('threept', 'compute_3pcf_in_gpp_box', '3pcf', 'sim', 3),
    '3pcf-window': ('threept', 'compute_3pcf_window', '3pcf-win', 'random',
                    3),
}
FORMS = ['diag', 'off-diag', 'row', 'full']


@st.composite
def cases(draw, stats=None, norms=('none', 'particle', 'mesh'), nd=20, nr=40,
          max_mesh=800, wa=True):
    case = draw(survey.base(nd=nd, nr=nr, max_mesh=max_mesh, nmax=12))
    case['stat'] = draw(gen.scalars(*(stats or sorted(STATS))))
    npt = STATS[case['stat']][4]
    if npt == 2:
        case['ell'] = draw(gen.scalars(0, 1, 2, 2, 3, 4))
    else:
        case['deg'] = list(draw(st.one_of(
            st.sampled_from(threept.LOW), st.sampled_from(threept.DEGREES))))
        case['form'] = draw(gen.scalars(*FORMS))
        case['pick'] = draw(st.integers(-3, 3))
        if wa and case['stat'] == '3pcf-window':
            case['wa'] = draw(st.one_of(st.none(), st.tuples(
                st.integers(0, 2), st.integers(0, 2)).map(list)))
    case['bins'] = draw(gen.binnings(nbins=3))
    case['norm'] = draw(gen.scalars(*norms))
    case['fftw'] = 'estimate'
    return case


def points(case):
    return STATS[case['stat']][4]


def space(case):
    return 'fourier' if 'spec' in case['stat'] else 'config'


def cattype(case):
    return STATS[case['stat']][3]


def columns(case):
    """(data columns, random columns) as given to the catalogues."""
    if cattype(case) == 'random':
        return None, survey.window_setup(case)[0]
    data, rand, _, _ = survey.setup(case)
    if cattype(case) == 'sim':
        return dict(pos=data['pos']), None
    return data, rand


def edges(case, mesh=None):
    mesh = mesh or rm.Mesh(case['boxsize'], case['ngrid'],
                           case['assignment'], False)
    if points(case) == 3:
        return (threept.edges_fourier if space(case) == 'fourier'
                else threept.edges_config)(case, mesh)
    if space(case) == 'fourier':
        return gen.make_edges(case['bins'], mesh.k,
                              2*np.pi/max(case['boxsize']), 2e-5)
    return gen.make_edges(case['bins'], mesh.r, max(mesh.L/mesh.N), 0.1001)


def params(case, made, **more):
    _, _, stat, ctype, npt = STATS[case['stat']]
    if npt == 2:
        return gen.param_dict(case, stat, ctype, made, {'ELL': case['ell']},
                              norm=case['norm'], **more)
    return gen.param_dict(
        case, stat, ctype, made, threept.degrees(case), form=case['form'],
        idx_bin=threept.index(case, made[3]), norm=case['norm'], **more)


def func(case):
    import importlib
    mod, name = STATS[case['stat']][:2]
    return getattr(importlib.import_module('triumvirate.' + mod), name)


def cats(case, data, rand):
    ctype = cattype(case)
    if ctype == 'sim':
        return [gen.catalogue(data)]
    if ctype == 'random':
        return [gen.catalogue(rand)]
    return [gen.catalogue(data), gen.catalogue(rand)]


def los_args(case, data, rand):
    out = {}
    ctype = cattype(case)
    if ctype == 'survey' and data['los'] is not None:
        out['los_data'] = data['los'].copy()
    if ctype != 'sim' and rand['los'] is not None:
        out['los_rand'] = rand['los'].copy()
    return out


def measure(case, data, rand, made, paramset=None, catalogues=None, los=True,
            **kw):
    from triumvirate.parameters import ParameterSet
    if paramset is None:
        paramset = ParameterSet(param_dict=params(case, made))
    if los:
        for key, val in los_args(case, data, rand).items():
            kw.setdefault(key, val)
    if made[0] == 'custom':
        kw.setdefault('binning', gen.make_binning(space(case), made))
    if case.get('wa') is not None:
        kw.setdefault('wa_orders', tuple(case['wa']))
    return meas.call(func(case), *(catalogues or cats(case, data, rand)),
                     paramset=paramset, **kw)


VALUE_KEYS = ('pk_raw', 'pk_shot', 'xi', 'bk_raw', 'bk_shot', 'zeta_raw',
              'zeta_shot')


def value_keys(res):
    return [k for k in VALUE_KEYS if k in res]


def floor(case, data, rand, mesh=None):
    """Size of the particles' own contribution, without normalisation."""
    mesh = mesh or rm.Mesh(case['boxsize'], case['ngrid'],
                           case['assignment'])
    cols = rand if cattype(case) == 'random' else data
    w = cols['ws']*cols['wc'] if 'ws' in cols else np.ones(len(cols['pos']))
    npt = points(case)
    size = np.sum(np.abs(w)**npt)
    if space(case) == 'config':
        size /= mesh.vol if npt == 2 else mesh.vol_cell**2
    if case.get('wa') is not None:
        size *= np.min(mesh.L/mesh.N)**(-sum(case['wa']))
    return size


def labels(case):
    return [case['stat'], f"norm={case['norm']}", case['assignment'],
            f"interlace={case['interlace']}"]
