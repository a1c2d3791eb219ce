"""Shared set-up of survey-like cases (data and random catalogues)."""
import numpy as np
from hypothesis import strategies as st

import gen
import refmodel as rm


@st.composite
def base(draw, nd=30, nr=60, cats={}, **kw):
    case = draw(gen.boxes(big=False, **kw))
    case.update(draw(gen.schemes()))
    case['cat'] = draw(gen.survey_pair(nd=nd, nr=nr, **cats))
    kind = draw(gen.scalars('centre', 'centre', 'box', 'grid'))
    case['alignment'] = 'centre' if kind == 'centre' else 'pad'
    if kind == 'box':
        case['padscale'], case['padfactor'] = 'box', draw(
            gen.scalars(0.01, 0.03, 0.1))
    if kind == 'grid':
        case['padscale'], case['padfactor'] = 'grid', draw(
            gen.scalars(0.5, 1., 1.5))
        if case['assignment'] == 'ngp':
            # the outermost particles would be midway between grid points
            case['padfactor'] -= 0.1
    return case


def large(max_mesh, nmin=14, nmax=48, n=2000):
    return base(nd=n, nr=2*n, cats={'nmin': 300}, max_mesh=max_mesh,
                nmin=nmin, nmax=nmax)


def beyond(strategy, **kw):
    """The cases with catalogues larger than their box, along some axis."""
    def stretch(case):
        def put(fill):
            case['cat']['fill'] = list(fill)
            return case
        return st.tuples(*[gen.scalars(0.6, 1.37, 2.3)]*3).map(put)
    return lambda: strategy(**kw).flatmap(stretch)


BEYOND = ('catalogues larger than the box along some axes, whose particles '
          'are wrapped into the periodic mesh')


def setup(case):
    """(data columns, rand columns, Source data, Source rand, los args)."""
    L, N = case['boxsize'], case['ngrid']
    if case['alignment'] == 'centre':
        pad = np.zeros(3)
    elif case['padscale'] == 'box':
        pad = np.full(3, case['padfactor'])
    else:
        pad = case['padfactor']/np.asarray(N)
    data, rand = gen.expand_survey(case['cat'], L, pad)
    pd, pr = gen.align(
        data['pos'], rand['pos'], L, N, case['alignment'],
        case.get('padscale', 'box'), case.get('padfactor', 0.))
    out = []
    for cols, pos in ((data, pd), (rand, pr)):
        los = cols['los'] if cols['los'] is not None else \
            gen.unit(cols['pos'])
        out.append(rm.Source(pos, cols['ws'], cols['wc'], cols['nz'], los))
    return data, rand, out[0], out[1]


def los_args(data, rand):
    if data['los'] is None:
        return {}
    return {'los_data': data['los'].copy(), 'los_rand': rand['los'].copy()}


def mesh_of(case):
    return rm.Mesh(case['boxsize'], case['ngrid'], case['assignment'],
                   case['interlace'])


def labels(case):
    out = [case['assignment'], f"interlace={case['interlace']}",
           f"align={case['alignment']}", f"los={case['cat']['los']}",
           f"w={case['cat']['w']}"]
    return out


def window_setup(case):
    """(random columns, line-of-sight argument, Source) of a window case."""
    L = case['boxsize']
    rand = gen.expand_survey(case['cat'], L)[1]
    los = rand['los'] if rand['los'] is not None else gen.unit(rand['pos'])
    pos = gen.placed_in_box(rand['pos'], L)
    return rand, rand['los'], rm.Source(pos, rand['ws'], rand['wc'],
                                        rand['nz'], los)
