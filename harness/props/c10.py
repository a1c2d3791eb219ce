"""C10: forms and multipoles of one three-point statistic agree."""
import numpy as np
from hypothesis import strategies as st

import gen
import meas
import ref3
import refmodel as rm
from core import Sub, Violation, check, close, expect_raises, ok
from props import survey, threept

TARGETS = ['py']
ASSUMPTIONS = [
    'Even mesh grid numbers; wavenumber bins below the Nyquist wavenumber.',
    'Equal first degrees: the full form holds the upper triangle in row '
    'order, as documented.',
]
STATS = {
    'bispec-survey': ('compute_bispec', 'bispec', 'survey'),
    'bispec-box': ('compute_bispec_in_gpp_box', 'bispec', 'sim'),
    '3pcf-survey': ('compute_3pcf', '3pcf', 'survey'),
    '3pcf-box': ('compute_3pcf_in_gpp_box', '3pcf', 'sim'),
    'window': ('compute_3pcf_window', '3pcf-win', 'random'),
}


@st.composite
def strategy(draw, stats=None):
    case = draw(survey.base(nd=15, nr=25, max_mesh=800, nmax=12))
    case['stat'] = draw(gen.scalars(*(stats or sorted(STATS))))
    case['deg'] = list(draw(st.one_of(
        st.sampled_from(threept.LOW), st.sampled_from(threept.DEGREES))))
    case['bins'] = draw(gen.binnings(nbins=5))
    case['off'] = draw(st.integers(-5, 5))
    case['row'] = draw(st.integers(0, 5))
    case['norm'] = draw(gen.scalars('none', 'particle', 'mesh'))
    case['wa'] = draw(st.one_of(st.none(), st.tuples(
        st.integers(0, 2), st.integers(0, 2)).map(list)))
    case['fftw'] = 'estimate'
    return case


def cubes(cols, step):
    """Replace every particle by eight, one grid cell apart (in place)."""
    shifts = np.array([(a, b, c) for a in (0, 1) for b in (0, 1)
                       for c in (0, 1)])*step
    cols['pos'] = (cols['pos'][:, None, :] + shifts).reshape(-1, 3)
    for key in ('ws', 'wc', 'nz', 'los'):
        if cols.get(key) is not None:
            cols[key] = np.repeat(cols[key], 8, axis=0)


class Setup:
    """Catalogues and measurement call of a case."""

    def __init__(self, case):
        import triumvirate.threept as t3
        self.case = case
        self.fname, self.stat, self.cattype = STATS[case['stat']]
        self.func = getattr(t3, self.fname)
        data, rand, sd, sr = survey.setup(case)
        if self.cattype == 'random':
            rand, _, sr = survey.window_setup(case)
        if case.get('cubes'):
            step = np.array(case['boxsize'])/np.array(case['ngrid'])
            span = np.ptp(rand['pos'], axis=0)
            shrink = np.minimum(1., (np.array(case['boxsize'])*0.999
                                     - step)/span)
            mid = rand['pos'].mean(axis=0)
            los = [sd.los, sr.los]
            for cols, sight in ((data, los[0]), (rand, los[1])):
                cols['pos'] = mid + (cols['pos'] - mid)*shrink
                cols['los'] = sight
                cubes(cols, step)
            if self.cattype == 'random':
                pr = gen.placed_in_box(rand['pos'], case['boxsize'])
            else:
                pd, pr = gen.align(
                    data['pos'], rand['pos'], case['boxsize'],
                    case['ngrid'], case['alignment'],
                    case.get('padscale', 'box'), case.get('padfactor', 0.))
            if self.cattype != 'random':
                sd = rm.Source(pd, data['ws'], data['wc'], data['nz'],
                               data['los'])
            sr = rm.Source(pr, rand['ws'], rand['wc'], rand['nz'],
                           rand['los'])
        self.src = sd, sr
        self.data, self.rand = data, rand
        mesh = rm.Mesh(case['boxsize'], case['ngrid'], case['assignment'])
        self.mesh = mesh
        edges = threept.edges_fourier if self.stat == 'bispec' else \
            threept.edges_config
        self.made = edges(case, mesh)
        self.n = self.made[3]

    def measure(self, deg, form, idx, **kw):
        case = self.case
        if self.cattype == 'survey':
            cats = [gen.catalogue(self.data), gen.catalogue(self.rand)]
            kw.update(survey.los_args(self.data, self.rand))
        elif self.cattype == 'sim':
            cats = [gen.catalogue(dict(pos=self.data['pos']))]
        else:
            cats = [gen.catalogue(self.rand)]
            if self.rand['los'] is not None:
                kw['los_rand'] = self.rand['los'].copy()
            if case['wa'] is not None:
                kw['wa_orders'] = tuple(case['wa'])
        space = 'fourier' if self.stat == 'bispec' else 'config'
        params = gen.paramset(
            case, self.stat, self.cattype, self.made,
            dict(zip(('ell1', 'ell2', 'ELL'), deg)), form=form,
            idx_bin=idx, norm=case['norm'])
        binning = gen.make_binning(space, self.made) \
            if self.made[0] == 'custom' else None
        return meas.call(self.func, *cats, paramset=params, binning=binning,
                         **kw)

    def got(self, deg, form, idx=0):
        """Results keyed by bin pair."""
        same = deg[0] == deg[1]
        pairs = ref3.pairs(form, self.n, idx, same)
        space = 'fourier' if self.stat == 'bispec' else 'config'
        what = f"{form}({idx}) {''.join(map(str, deg))}"
        res = meas.threept(self.measure(deg, form, idx), what, len(pairs),
                           space)
        cen = gen.centres(self.made[4])
        c, e, m, v, s = (
            ('k%d_bin', 'k%d_eff', 'nmodes_%d', 'bk_raw', 'bk_shot')
            if space == 'fourier' else
            ('r%d_bin', 'r%d_eff', 'npairs_%d', 'zeta_raw', 'zeta_shot'))
        out = {}
        for i, p in enumerate(pairs):
            for leg in (1, 2):
                close(res[c % leg][i], cen[p[leg - 1]],
                      f'{what} {c % leg} of entry {i}', rtol=1e-9)
            out[p] = dict(
                n=(int(res[m % 1][i]), int(res[m % 2][i])),
                eff=(float(res[e % 1][i]), float(res[e % 2][i])),
                raw=complex(res[v][i]), shot=complex(res[s][i]))
        return out


def same(a, b, scale, what, swap=False):
    nb = b['n'][::-1] if swap else b['n']
    eb = b['eff'][::-1] if swap else b['eff']
    check(a['n'] == nb, f"{what}: counts {a['n']} against {nb}")
    close(np.array(a['eff']), np.array(eb), f'{what}: effective '
          'coordinates', rtol=1e-9)
    for key in ('raw', 'shot'):
        close(np.array(a[key]), np.array(b[key]), f'{what}: {key}',
              rtol=1e-8, scale=scale[key])


def scales(*tables):
    out = {}
    for key in ('raw', 'shot'):
        v = [abs(t[key]) for tab in tables for t in tab.values()
             if np.isfinite(t[key])]
        out[key] = max(v, default=0.)
    return out


def run(case):
    setup = Setup(case)
    n, deg = setup.n, tuple(case['deg'])
    full = setup.got(deg, 'full')
    off = case['off'] if abs(case['off']) < n else case['off'] % n
    row = case['row'] % n
    forms = {'diag': setup.got(deg, 'diag'),
             f'off-diag {off}': setup.got(deg, 'off-diag', off),
             f'row {row}': setup.got(deg, 'row', row)}
    sc = scales(full, *forms.values())
    floor = noise_floor(setup)
    sc = {k: max(v, 1e-4*floor) for k, v in sc.items()}
    tabs = list(forms.items())
    for name, tab in tabs:
        for p, val in tab.items():
            if p in full:
                same(val, full[p], sc, f'{name} against full at {p}')
    for p, val in forms[f'row {row}'].items():
        for name in ('diag', f'off-diag {off}'):
            if p in forms[name]:
                same(val, forms[name][p], sc, f'row {row} against {name} '
                     f'at {p}')
    return ok(sc['raw'] > 1e-4*floor, case['stat'],
              'deg=' + ''.join(map(str, deg)), f'offdiag={np.sign(off)}')


# -- exchange of the first two degrees ---------------------------------------

@st.composite
def exchange_strategy(draw):
    case = draw(strategy())
    case['ngrid'] = [min(n, 8) for n in case['ngrid']]
    case['bins']['n'] = min(case['bins']['n'], 3)
    # eight copies one grid cell apart: no power in the Nyquist planes
    case['cubes'] = draw(st.booleans())
    case['cat'].update(nd=min(case['cat']['nd'], 8),
                       nr=min(case['cat']['nr'], 10))
    return case


def reference(setup, deg, form, idx):
    case = setup.case
    mesh, edges = setup.mesh, setup.made[4]
    if setup.cattype == 'sim':
        fields = ref3.Fields(mesh, 'box', data=gen.placed_in_box(
            setup.data['pos'], case['boxsize']))
    elif setup.cattype == 'survey':
        fields = ref3.Fields(mesh, 'survey', data=setup.src[0],
                             rand=setup.src[1])
    else:
        fields = ref3.Fields(mesh, 'window', rand=setup.src[1],
                             wa=case['wa'])
    func = ref3.bispec if setup.stat == 'bispec' else ref3.corrfunc
    ref = func(fields, deg, edges, form, idx)
    pairs = ref3.pairs(form, setup.n, idx, deg[0] == deg[1])
    return {p: {k: (ref[k][i] if k in ref else 0.) for k in (
        'raw', 'rawmag', 'shot', 'shotmag', 'shotslack', 'rawslack',
        'valid')} for i, p in enumerate(pairs)}


def run_exchange(case):
    case = dict(case, norm='none')
    setup = Setup(case)
    deg = tuple(case['deg'])
    swapped = (deg[1], deg[0], deg[2])
    full = setup.got(deg, 'full')
    ref = reference(setup, deg, 'full', 0)
    if deg[0] == deg[1]:
        row = case['row'] % setup.n
        other = setup.got(deg, 'row', row)
        oref = reference(setup, deg, 'row', row)
    else:
        other = setup.got(swapped, 'full')
        oref = reference(setup, swapped, 'full', 0)
    floor = noise_floor(setup)
    seen = 0
    for p, val in other.items():
        q = p[::-1]
        if q not in full:
            continue
        mine = full[q]
        what = (f'exchanging degrees of {"".join(map(str, deg))} at bins '
                f'{q}')
        check(val['n'] == mine['n'][::-1],
              f"{what}: counts {val['n']} against {mine['n'][::-1]}")
        if not (ref[q]['valid'] and oref[p]['valid']):
            continue
        close(np.array(val['eff']), np.array(mine['eff'][::-1]),
              f'{what}: effective coordinates', rtol=1e-9)
        for key in ('raw', 'shot'):
            # only the unpaired Nyquist planes may break the symmetry
            expect = ref[q][key] - oref[p][key]
            got = mine[key] - val[key]
            mag = max(r[x][key + 'mag'] for r, x in ((ref, q), (oref, p)))
            big = max(r[x][key + 'mag'] for r in (ref, oref) for x in r)
            slack = sum(r[x][key + 'slack'] for r, x in (
                (ref, q), (oref, p)))
            tol = 1e-6*max(mag, big) + 2e-10*floor + 2.5*slack
            check(abs(got - expect) <= tol,
                  f'{what}: {key} {mine[key]!r} against {val[key]!r}, '
                  f'asymmetry {got!r} instead of {expect!r}')
        seen += 1
    return ok(seen, case['stat'], 'deg=' + ''.join(map(str, deg)),
              f"cubes={case['cubes']}")


def noise_floor(setup):
    """Size of one particle's cubed contribution to the statistic."""
    case = setup.case
    cols = setup.rand if setup.cattype == 'random' else setup.data
    w = cols['ws']*cols['wc'] if setup.cattype != 'sim' else \
        np.ones(len(cols['pos']))
    size = np.sum(np.abs(w)**3)
    if setup.stat != 'bispec':
        size /= setup.mesh.vol_cell**2
    if setup.cattype == 'random' and case['wa'] is not None:
        size *= np.min(setup.mesh.L/setup.mesh.N)**(-sum(case['wa']))
    if case['norm'] == 'none':
        return size
    if setup.cattype == 'sim':
        return size*setup.mesh.vol**2/len(w)**3
    src = rm.Source(setup.rand['pos'], setup.rand['ws'], setup.rand['wc'],
                    setup.rand['nz'], np.zeros((len(setup.rand['ws']), 3)))
    alpha = 1. if setup.cattype == 'random' else \
        setup.data['ws'].sum()/setup.rand['ws'].sum()
    return size*abs(rm.norm_particles(src, alpha, 3))


# -- vanishing multipoles ---------------------------------------------------

BAD = [(a, b, c) for a in range(7) for b in range(7) for c in range(8)
       if not (abs(a - b) <= c <= a + b and (a + b + c) % 2 == 0)]
GOOD = [(a, b, c) for a in range(7) for b in range(7) for c in range(8)
        if (abs(a - b) <= c <= a + b and (a + b + c) % 2 == 0)]


@st.composite
def vanish_strategy(draw):
    case = draw(strategy())
    case['ngrid'] = [4, 4, 4]
    case['bad'] = draw(st.booleans())
    case['deg'] = list(draw(st.sampled_from(BAD if case['bad'] else GOOD)))
    case['form'] = draw(gen.scalars('diag', 'off-diag', 'row', 'full'))
    return case


def run_vanish(case):
    setup = Setup(case)
    deg, form = tuple(case['deg']), case['form']
    if case['bad']:
        expect_raises(
            Exception, lambda: setup.measure(deg, form, 0),
            f'vanishing multipole {deg} of {case["stat"]}')
    else:
        try:
            res = setup.measure(deg, form, 0)
        except Exception as exc:
            raise Violation(f'multipole {deg} of {case["stat"]} rejected: '
                            f'{type(exc).__name__}: {exc}') from exc
        check(isinstance(res, dict), 'no result')
    return ok(True, f"bad={case['bad']}", case['stat'])


CHECKS = [
    Sub('forms', strategy, run, quick=500, thorough=40000, shards=6,
        rule='random inputs of the five three-point statistics, allowed '
             'multipoles up to degree 3, binnings up to five bins; every '
             'form and the exchanged full form compared; non-trivial if '
             'the raw statistic is not negligible'),
    Sub('exchange', exchange_strategy, run_exchange, quick=400,
        thorough=30000, shards=5,
        rule='full form against the full form with exchanged degrees '
             '(equal degrees: lower triangle from rows against upper '
             'triangle); the asymmetry must be the one the unpaired Nyquist '
             'planes cause, which is none for particles in cubes one cell '
             'wide; non-trivial if some bin pair holds modes'),
    Sub('vanish', vanish_strategy, run_vanish, quick=300, thorough=5000,
        shards=2, rule='degrees up to (6, 6, 7), vanishing ones must raise '
        'and the others must be measured; all count'),
]
