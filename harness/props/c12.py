"""C12: normalisation factors of every convention and statistic."""
import re

import numpy as np
from hypothesis import strategies as st

import gen
import refmodel as rm
from core import Sub, Violation, check, close, expect_raises, ok, scratch
from props import anystat, survey

TARGETS = ['py']
ASSUMPTIONS = [
    'Even mesh grid numbers; no particle exactly on a nearest-grid-point '
    'boundary; the mixed-mesh integral uses 10-unit cells and 10 per cent '
    'padding with cloud-in-cell assignment, as the code states.',
]
NORMS = ['none', 'particle', 'mesh', 'mesh-mixed']


@st.composite
def strategy(draw):
    case = draw(anystat.cases(norms=('none', 'particle', 'particle', 'mesh',
                                     'mesh')))
    if case['stat'] in ('powspec-survey', '2pcf-survey'):
        case['norm'] = draw(gen.scalars(*NORMS))
    # box catalogues may carry weights and densities too
    case['simcols'] = draw(gen.scalars('none', 'nz', 'all'))
    return case


def setup(case):
    """(data, rand, {convention: factor}) of the case."""
    data, rand = anystat.columns(case)
    L, N = case['boxsize'], case['ngrid']
    mesh = rm.Mesh(L, N, case['assignment'])
    npt = anystat.points(case)
    ctype = anystat.cattype(case)
    out = {'none': 1., 'mesh-mixed': 0.}
    if ctype == 'sim':
        full = survey.setup(case)[0]
        n = len(full['pos'])
        one = np.ones(n)
        nz, ws, wc = np.full(n, n/mesh.vol), one, one
        if case['simcols'] != 'none':
            data['nz'] = nz = full['nz']
        if case['simcols'] == 'all':
            data['ws'], data['wc'] = ws, wc = full['ws'], full['wc']
        src = rm.Source(gen.placed_in_box(data['pos'], L), ws, wc, nz, None)
        alpha = 1.
    elif ctype == 'random':
        src = survey.window_setup(case)[2]
        alpha = 1.
    else:
        if case['norm'] == 'mesh-mixed':
            data['pos'][0] = rand['pos'][2]
            for k in ('ws', 'wc'):
                data[k][0] = rand[k][2] = 1.
        case_src = [rm.Source(p, c['ws'], c['wc'], c['nz'], None)
                    for c, p in zip((data, rand), gen.align(
                        data['pos'], rand['pos'], L, N, case['alignment'],
                        case.get('padscale', 'box'),
                        case.get('padfactor', 0.)))]
        src = case_src[1]
        alpha = rm.alpha_of(*case_src)
        if npt == 2:
            out['mesh-mixed'] = mixed(case, data, rand, alpha)
    out['particle'] = rm.norm_particles(src, alpha, npt)
    out['mesh'] = rm.norm_mesh(mesh, src, alpha, npt)
    return data, rand, out


def mixed(case, data, rand, alpha):
    span = max(np.ptp(data['pos'], axis=0).max(),
               np.ptp(rand['pos'], axis=0).max())
    n = int(np.ceil(1.1*span/10.))
    n += n % 2
    L = np.full(3, n*10.)
    pd, pr = gen.align(data['pos'], rand['pos'], L, np.full(3, n),
                       case['alignment'], case.get('padscale', 'box'),
                       case.get('padfactor', 0.))
    mesh = rm.Mesh(L, [n]*3, 'cic')
    one = [rm.Source(np.mod(p, L), c['ws'], c['wc'], c['nz'], None)
           for c, p in ((data, pd), (rand, pr))]
    with np.errstate(divide='ignore'):
        return rm.norm_meshes(mesh, one[0], one[1], alpha)


def measure(case, data, rand, norm, save=False):
    case = dict(case, norm=norm)
    made = anystat.edges(case)
    return anystat.measure(case, data, rand, made, save=save)


NUM = r'([-+0-9.einfa]+)'


def run(case):
    data, rand, factors = setup(case)
    with scratch():
        res = measure(case, data, rand, case['norm'], save='.npz')
    plain = measure(case, data, rand, 'none')
    f = factors[case['norm']]
    flr = 1e-3*anystat.floor(case, dict(data, ws=1., wc=1.)
                             if anystat.cattype(case) == 'sim' else data,
                             rand)
    for k in anystat.value_keys(plain):
        a, b = np.asarray(res[k]), np.asarray(plain[k])
        mag = np.abs(b)[np.isfinite(b)]
        scale = abs(f)*max(flr, mag.max() if mag.size else 0.)
        close(a, f*b, f"{case['stat']} {k} with {case['norm']} "
              'normalisation', rtol=1e-8, scale=scale)
    header = str(res['header'])
    m = re.search(rf'Normalisation factor: {NUM} \((.*?)\)', header)
    check(m, f'no normalisation factor in the header: {header}')
    check(m.group(2) == case['norm'],
          f'header names the convention {m.group(2)!r}')
    close(float(m.group(1)), f, 'normalisation factor in the header',
          rtol=1e-8)
    m = re.search(rf'Normalisation factor alternatives: {NUM} \(particle\), '
                  rf'{NUM} \(mesh\), {NUM} \(mesh-mixed', header)
    check(m, f'no alternative normalisation factors: {header}')
    for i, name in enumerate(('particle', 'mesh', 'mesh-mixed'), 1):
        close(float(m.group(i)), factors[name],
              f'{name} alternative in the header', rtol=2e-8)
    return ok(True, case['stat'], f"norm={case['norm']}",
              f"sim={case['simcols']}" if 'box' in case['stat'] else 'other')


# -- undefined normalisation ---------------------------------------------------

@st.composite
def bad_strategy(draw):
    case = draw(anystat.cases())
    case['why'] = draw(gen.scalars('nz', 'wc', 'overlap', 'mixed'))
    case['norm'] = 'particle'
    return case


def run_bad(case):
    data, rand = anystat.columns(case)
    why, ctype = case['why'], anystat.cattype(case)
    what = f"{case['stat']}: {why}"
    target = data if ctype == 'sim' else rand
    n = len(target['pos'])
    if why == 'nz' and ctype == 'sim':
        why = 'wc'      # zero densities are replaced by the mean density
    if why == 'overlap' and (ctype != 'survey' or anystat.points(case) == 3):
        why = 'nz' if ctype != 'sim' else 'wc'
    if why == 'mixed' and ctype == 'survey' and anystat.points(case) == 2:
        why = 'overlap'
    if why == 'nz':
        target['nz'] = np.zeros(n)
        norm = 'particle'
    elif why == 'wc':
        target['wc'] = np.zeros(n)
        norm = 'particle'
    elif why == 'mixed':
        norm = 'mesh-mixed'
    else:
        # data and randoms far apart inside the box of the randoms
        norm = 'mesh-mixed'
        span = np.ptp(rand['pos'], axis=0)
        if span.max() < 60:
            return ok(False, 'too small')
        ax = int(np.argmax(span))
        lo = rand['pos'].min(axis=0)
        rand['pos'][2:, ax] = lo[ax] + 1e-3*span[ax]
        data['pos'][:, ax] = lo[ax] + 0.5*span[ax]
    exc = expect_raises(
        Exception, lambda: measure(case, data, rand, norm),
        f'{what}: undefined {norm} normalisation')
    if isinstance(exc, UnboundLocalError):
        raise Violation(f'{what}: internal error {exc}')
    return ok(True, case['stat'], why)


CHECKS = [
    Sub('factors', strategy, run, quick=900, thorough=60000, shards=8,
        rule='all ten statistics, every applicable convention, weights and '
             'densities, alignments: results against the unnormalised ones '
             'times the factor of the model, factors in the header; all '
             'count'),
    Sub('undefined', bad_strategy, run_bad, quick=200, thorough=5000,
        shards=2, rule='zero densities or weights, no overlap on the mixed '
        'mesh, mixed mesh where it does not apply: must raise; non-trivial '
        'unless the geometry is too small to separate data and randoms'),
]
