"""C11: symmetries of the estimators, as metamorphic relations."""
import numpy as np
from hypothesis import strategies as st

import gen
import refmodel as rm
from core import Sub, check, close, ok, set_threads
from props import anystat

TARGETS = ['py']
ASSUMPTIONS = [
    'Even mesh grid numbers, so that half a box is a whole number of cells.',
    'Axis permutations are applied to isotropic statistics (and to all '
    'survey two-point multipoles, whose azimuthal sums are complete).',
]


def compare(case, base, other, factor, data, rand, what, rtol=1e-8):
    keys = anystat.value_keys(base)
    check(sorted(k for k in base if k != 'header')
          == sorted(k for k in other if k != 'header'),
          f'{what}: different keys')
    flr = anystat.floor(case, data, rand)
    norm = norm_size(case, data, rand)
    scale = 1e-3*flr*norm*max(1., abs(factor))
    for k in base:
        a, b = np.asarray(base[k]), np.asarray(other[k])
        if k in keys:
            fin = np.abs(a*factor)[np.isfinite(a)]
            s = max(scale, fin.max() if fin.size else 0.)
            close(b, a*factor, f'{what}: {k}', rtol=rtol, scale=s)
        elif 'eff' in k or 'bin' in k:
            close(b, a, f'{what}: {k}', rtol=1e-9)
        else:
            check(np.array_equal(a, b), f'{what}: {k} {list(b)} against '
                  f'{list(a)}')


def norm_size(case, data, rand):
    """Rough size of the normalisation factor."""
    if case['norm'] == 'none':
        return 1.
    mesh = rm.Mesh(case['boxsize'], case['ngrid'], case['assignment'])
    npt = anystat.points(case)
    if anystat.cattype(case) == 'sim':
        return mesh.vol**(npt - 1)/len(data['pos'])**npt
    alpha = 1. if data is None else data['ws'].sum()/rand['ws'].sum()
    w = rand['ws']*rand['wc']
    if case['norm'] == 'particle':
        return abs(1/(alpha*np.sum(rand['ws']*rand['nz']**(npt - 1)
                                   * rand['wc']**npt)))
    return abs(mesh.vol**(npt - 1)/(alpha*w.sum())**npt)


# -- order of particles ------------------------------------------------------

def perm_cols(cols, perm):
    return None if cols is None else {
        k: (None if v is None else v[perm]) for k, v in cols.items()}


@st.composite
def order_strategy(draw):
    case = draw(anystat.cases())
    case['perm'] = draw(gen.seeds())
    case['threads'] = [draw(st.integers(1, 8)), draw(st.integers(1, 8))]
    return case


def run_order(case):
    data, rand = anystat.columns(case)
    made = anystat.edges(case)
    rng = np.random.RandomState(case['perm'])
    try:
        set_threads(case['threads'][0])
        base = anystat.measure(case, data, rand, made)
        d2 = data if data is None else perm_cols(
            data, rng.permutation(len(data['pos'])))
        r2 = rand if rand is None else perm_cols(
            rand, rng.permutation(len(rand['pos'])))
        set_threads(case['threads'][1])
        other = anystat.measure(case, d2, r2, made)
    finally:
        set_threads(2)
    compare(case, base, other, 1., data, rand, f"{case['stat']} reordered, "
            f"threads {case['threads']}")
    return ok(True, *anystat.labels(case),
              f"threads={case['threads'][0] != case['threads'][1]}")


# -- translation and wrapping of boxes ---------------------------------------

@st.composite
def wrap_strategy(draw):
    case = draw(anystat.cases(stats=[s for s in anystat.STATS
                                     if s.endswith('-box')]))
    case['cells'] = [draw(st.integers(-20, 20)) for _ in range(3)]
    case['wrap'] = draw(gen.seeds())
    case['n'] = draw(st.integers(0, 12))
    case['pin'] = [draw(st.integers(0, 7)) for _ in range(6)]
    case['far'] = draw(st.booleans())
    return case


def run_wrap(case):
    rng = np.random.RandomState(case['wrap'])
    L, N = np.array(case['boxsize']), np.array(case['ngrid'])
    h = L/N
    pos = rng.random_sample((case['n'], 3))*L
    pin = np.array(case['pin']).reshape(2, 3)
    # the sum of the two pinned cell coordinates is even, so that centring
    # moves the box by whole cells whatever is wrapped
    a = pin[0] + 0.25
    b = pin[1] + 0.75 + (pin[0] + pin[1] + 1) % 2

    def build(cells, wraps, far):
        p = np.vstack([pos + cells*h + wraps*L,
                       (a + cells)*h - far*L, (b + cells)*h + (far + 1)*L])
        return dict(pos=p)
    one = build(np.zeros(3), np.zeros((case['n'], 3)), 6)
    two = build(np.array(case['cells']),
                rng.randint(-2, 3, (case['n'], 3)), 8 if case['far'] else 7)
    made = anystat.edges(case)
    base = anystat.measure(case, one, None, made)
    other = anystat.measure(case, two, None, made)
    compare(case, base, other, 1., one, None,
            f"{case['stat']} translated and wrapped")
    return ok(case['n'] > 0, *anystat.labels(case))


# -- weight factors -----------------------------------------------------------

@st.composite
def weight_strategy(draw):
    case = draw(anystat.cases(
        stats=[s for s in anystat.STATS if not s.endswith('-box')],
        norms=('none', 'none', 'particle', 'mesh', 'mesh-mixed')))
    if case['norm'] == 'mesh-mixed' and case['stat'] not in (
            'powspec-survey', '2pcf-survey'):
        case['norm'] = 'mesh'
    case['factor'] = draw(st.one_of(
        gen.scalars(2., 0.5, 10., 1e-3, 1e4), st.floats(0.1, 9.)))
    case['which'] = draw(gen.scalars('data', 'rand', 'wc'))
    return case


def run_weight(case):
    data, rand = anystat.columns(case)
    made = anystat.edges(case)
    npt = anystat.points(case)
    window = data is None
    which = case['which']
    if window and which == 'data':
        which = 'rand'
    f = case['factor']
    if case['norm'] == 'mesh-mixed':
        # the mixed-mesh integral needs data and randoms that overlap
        data['pos'][0] = rand['pos'][2]
        data['ws'][0] = rand['ws'][2] = 1.
    base = anystat.measure(case, data, rand, made)

    def scaled(cols, key):
        return cols if cols is None else dict(cols, **{key: cols[key]*f})
    d2, r2 = data, rand
    if which == 'data':
        d2 = scaled(data, 'ws')
        power = {'none': npt, 'particle': npt - 1, 'mesh': 0,
                 'mesh-mixed': 0}[case['norm']]
    elif which == 'rand':
        r2 = scaled(rand, 'ws')
        power = 0 if not window else {
            'none': npt, 'particle': npt - 1, 'mesh': 0}[case['norm']]
    else:
        # clustering weights of both catalogues leave the contrast alone
        d2, r2 = scaled(data, 'wc'), scaled(rand, 'wc')
        power = {'none': npt, 'particle': 0, 'mesh': 0,
                 'mesh-mixed': 0}[case['norm']]
    other = anystat.measure(case, d2, r2, made)
    compare(case, base, other, f**power, data, rand,
            f"{case['stat']} with {which} weights times {f}")
    return ok(f != 1, *anystat.labels(case), which)


# -- axis permutations --------------------------------------------------------

PERMS = [(0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]


@st.composite
def axis_strategy(draw):
    case = draw(anystat.cases())
    case['axes'] = list(draw(st.sampled_from(PERMS)))
    if anystat.points(case) == 3:
        case['deg'] = [0, 0, 0]
        # the power law of the radial distance is isotropic as well
    elif not case['stat'].endswith('survey'):
        case['ell'] = 0
    return case


def run_axis(case):
    perm = case['axes']
    data, rand = anystat.columns(case)
    made = anystat.edges(case)
    base = anystat.measure(case, data, rand, made)

    def turned(cols):
        if cols is None:
            return None
        out = dict(cols, pos=cols['pos'][:, perm].copy())
        if cols.get('los') is not None:
            out['los'] = cols['los'][:, perm].copy()
        return out
    case2 = dict(case, boxsize=[case['boxsize'][i] for i in perm],
                 ngrid=[case['ngrid'][i] for i in perm])
    other = anystat.measure(case2, turned(data), turned(rand), made)
    compare(case, base, other, 1., data, rand,
            f"{case['stat']} with axes {perm}")
    aniso = len(set(zip(case['boxsize'], case['ngrid']))) > 1
    return ok(aniso or not case['stat'].endswith('-box'),
              *anystat.labels(case))


CHECKS = [
    Sub('order', order_strategy, run_order, quick=700, thorough=50000,
        shards=4, rule='all ten statistics, random reordering of every '
        'catalogue and change of thread count; all count'),
    Sub('wrap', wrap_strategy, run_wrap, quick=500, thorough=40000,
        shards=3, rule='box statistics, translation by whole cells and '
        'particles moved by whole boxes; non-trivial with particles besides '
        'the two pinned ones'),
    Sub('weight', weight_strategy, run_weight, quick=600, thorough=50000,
        shards=3, rule='survey and window statistics, weights of one '
        'catalogue times a factor, four normalisations; all count'),
    Sub('axes', axis_strategy, run_axis, quick=600, thorough=50000,
        shards=3, rule='axis permutations of isotropic statistics; '
        'non-trivial for anisotropic boxes or survey catalogues'),
]
