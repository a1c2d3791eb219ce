"""C01: placement operations against a model of rigid displacements."""
import warnings

import numpy as np
from hypothesis import strategies as st

import drv
import gen
from core import Sub, Violation, check, close, equal, ok

TARGETS = ['py', 'drv']
ASSUMPTIONS = [
    'Coordinates are compared to 1e-9 of the larger of box size and '
    'coordinate magnitude (rounding of the shifts).',
]
SIZES = [1., 64., 100., 333.3, 1000.]


def box_arg():
    return st.one_of(
        st.fixed_dictionaries({'as': gen.scalars('scalar'),
                               'v': st.sampled_from(SIZES)}),
        st.fixed_dictionaries({
            'as': gen.scalars('list', 'tuple', 'array'),
            'v': st.lists(st.sampled_from(SIZES), min_size=3, max_size=3)}))


def pad_arg():
    return st.one_of(
        st.fixed_dictionaries({
            'as': gen.scalars('scalar'),
            'v': gen.scalars(0., 0.02, 0.1, 0.5, 2., 3.)}),
        st.fixed_dictionaries({
            'as': gen.scalars('list', 'tuple', 'array'),
            'v': st.lists(gen.scalars(0., 0.02, 0.1, 1., 2.5),
                          min_size=3, max_size=3)}))


def who():
    return gen.scalars('a', 'b')


def op():
    return st.one_of(
        st.fixed_dictionaries({
            'op': gen.scalars('offset'), 'who': who(),
            'arg': st.one_of(
                st.fixed_dictionaries({
                    'as': gen.scalars('list', 'array', 'tuple'),
                    'v': st.lists(st.floats(-5000, 5000), min_size=3,
                                  max_size=3)}),
                st.fixed_dictionaries({'as': gen.scalars('scalar'),
                                       'v': st.floats(-500, 500)}))}),
        st.fixed_dictionaries({
            'op': gen.scalars('centre'), 'who': who(),
            'ref': st.booleans(), 'box': box_arg()}),
        st.fixed_dictionaries({
            'op': gen.scalars('pad'), 'who': who(), 'ref': st.booleans(),
            'box': box_arg(), 'pad': pad_arg(),
            'scale': gen.scalars('box', 'grid', 'none', 'both'),
            'grid': st.lists(st.integers(2, 64), min_size=3, max_size=3)}),
        st.fixed_dictionaries({
            'op': gen.scalars('periodise'), 'who': who(),
            'box': box_arg()}),
        st.fixed_dictionaries({'op': gen.scalars('los'), 'who': who()}),
        st.fixed_dictionaries({
            'op': gen.scalars('density'), 'who': who(), 'box': box_arg(),
            'vol': st.booleans()}),
    )


@st.composite
def strategy(draw):
    cats = {}
    for name in 'ab':
        cats[name] = {
            'n': draw(st.integers(1, 12)), 'seed': draw(gen.seeds()),
            'dtype': draw(gen.scalars('float', 'float', 'int', 'float32',
                                      'list')),
            'scale': draw(gen.scalars(1., 100., 1000.)),
            'shift': draw(gen.scalars(0., -700., 12345.678)),
            # extents spanning a whole box exactly
            'full': draw(gen.scalars(0., 0., 1., 100., 333.3)),
            'w': draw(st.booleans()),
        }
    return {'cats': cats, 'ops': draw(st.lists(op(), min_size=1,
                                               max_size=10))}


def arg(spec):
    v = spec['v']
    return {'scalar': lambda: v, 'list': lambda: list(v),
            'tuple': lambda: tuple(v),
            'array': lambda: np.array(v, dtype=float)}[spec['as']]()


def vec(spec):
    return np.broadcast_to(np.asarray(spec['v'], float), 3).copy()


def expand(spec):
    rng = np.random.RandomState(spec['seed'])
    pos = (rng.random_sample((spec['n'], 3)) - 0.3)*spec['scale'] \
        + spec['shift']
    if spec['full']:
        lo = pos.min(axis=0)
        pos = np.vstack([pos, lo + spec['full']])
    if spec['dtype'] == 'int':
        pos = np.round(pos).astype(int)
    elif spec['dtype'] == 'float32':
        pos = pos.astype(np.float32)
    n = len(pos)
    cols = dict(pos=pos)
    if spec['w']:
        cols.update(nz=rng.random_sample(n), ws=rng.random_sample(n),
                    wc=rng.random_sample(n))
    return cols


def make(spec):
    from triumvirate.catalogue import ParticleCatalogue
    cols = expand(spec)
    xyz = [cols['pos'][:, i].copy() for i in range(3)]
    if spec['dtype'] == 'list':
        xyz = [list(map(float, c)) for c in xyz]
    kw = {k: cols[k].copy() for k in ('nz', 'ws', 'wc') if k in cols}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cat = ParticleCatalogue(*xyz, **kw)
    return cat, cols['pos'].astype(float)


def state(cat):
    return {k: np.array(cat[k], copy=True) for k in ('nz', 'ws', 'wc')}


def verify(cat, pos, prec, what):
    got = gen.positions(cat).astype(float)
    close(got, pos, f'{what}: coordinates', rtol=0., atol=prec)
    for i, ax in enumerate('xyz'):
        lo, hi = got[:, i].min(), got[:, i].max()
        b = cat.bounds[ax]
        check(len(b) == 2, f'{what}: bounds[{ax}] = {b!r}')
        close(np.array([b[0], b[1]], float), np.array([lo, hi]),
              f'{what}: recorded bounds along {ax}', rtol=0., atol=prec/100)
        close(float(cat.spans[ax]), hi - lo,
              f'{what}: recorded span along {ax}', rtol=0., atol=prec/50)


def run(case):
    cats, model, prec, other = {}, {}, {}, {}
    for name in 'ab':
        cats[name], model[name] = make(case['cats'][name])
        eps = 1e-5 if case['cats'][name]['dtype'] == 'float32' else 1e-9
        prec[name] = eps
        other[name] = state(cats[name])

    def tol(name, box=None):
        m = max(np.abs(model[name]).max(), seen[name], 1.)
        return prec[name]*m
    seen = {n: max(np.abs(model[n]).max(), 1.) for n in 'ab'}
    for n in 'ab':
        verify(cats[n], model[n], tol(n), f'new catalogue {n}')
    moved = 0
    for step, o in enumerate(case['ops']):
        a = o['who']
        b = 'b' if a == 'a' else 'a'
        what = f"step {step} {o['op']}"
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if o['op'] == 'offset':
                cats[a].offset_coords(arg(o['arg']))
                model[a] = model[a] - vec(o['arg'])
                moved += 1
            elif o['op'] in ('centre', 'pad'):
                ref = b if o['ref'] else a
                kw = {'catalogue_ref': cats[b]} if o['ref'] else {}
                L = vec(o['box'])
                if o['op'] == 'centre':
                    cats[a].centre(arg(o['box']), **kw)
                    lo, hi = model[ref].min(0), model[ref].max(0)
                    shift = L/2 - (lo + hi)/2
                else:
                    if o['scale'] == 'none':
                        cats[a].pad(arg(o['box']), **kw)
                        shift = np.zeros(3)
                    elif o['scale'] == 'both':
                        try:
                            cats[a].pad(arg(o['box']), ngrid=o['grid'],
                                        boxsize_pad=arg(o['pad']),
                                        ngrid_pad=arg(o['pad']), **kw)
                        except ValueError:
                            shift = np.zeros(3)
                        else:
                            raise Violation(f'{what}: conflicting padding '
                                            'accepted')
                    else:
                        amount = vec(o['pad'])*L
                        if o['scale'] == 'grid':
                            amount = amount/np.array(o['grid'])
                            kw.update(ngrid=list(o['grid']),
                                      ngrid_pad=arg(o['pad']))
                        else:
                            kw.update(boxsize_pad=arg(o['pad']))
                        cats[a].pad(arg(o['box']), **kw)
                        shift = amount - model[ref].min(0)
                if o['ref']:
                    # the shift carries the reference's rounding
                    prec[a] = max(prec[a], prec[b])
                    seen[a] = max(seen.values())
                for n in ((a, b) if o['ref'] else (a,)):
                    seen[n] = max(seen[n], np.abs(model[n]).max(),
                                  np.abs(shift).max())
                    # float32 columns keep their precision per step
                    model[n] = model[n] + shift
                moved += 1
            elif o['op'] == 'periodise':
                cats[a].periodise(arg(o['box']))
                L = vec(o['box'])
                lo, hi = model[a].min(0), model[a].max(0)
                want = np.mod(model[a] + L/2 - (lo + hi)/2, L)
                got = gen.positions(cats[a]).astype(float)
                check(np.all(got >= 0) and np.all(got < L),
                      f'{what}: coordinates outside [0, box size): '
                      f'{got[~((got >= 0) & (got < L))]}')
                d = np.abs(got - want)
                d = np.minimum(d, L - d)
                check(np.all(d <= 4*tol(a)),
                      f'{what}: displaced by up to {d.max()} from a common '
                      'shift modulo the box size')
                # the model follows the observed side of the boundary
                model[a] = np.where(np.abs(got - want) > L/2, got, want)
                moved += 1
            elif o['op'] == 'los':
                los = np.asarray(cats[a].compute_los(), float)
                check(los.shape == model[a].shape,
                      f'{what}: shape {los.shape}')
                cur = gen.positions(cats[a]).astype(float)
                close(los, gen.unit(cur), f'{what}: lines of sight',
                      rtol=0., atol=1e-6 if prec[a] > 1e-6 else 1e-12)
            else:
                L = vec(o['box'])
                if o['vol']:
                    cats[a].compute_mean_density(volume=float(np.prod(L)))
                else:
                    cats[a].compute_mean_density(boxsize=arg(o['box']))
                other[a]['nz'] = np.full(len(model[a]),
                                         len(model[a])/np.prod(L))
        for n in 'ab':
            seen[n] = max(seen[n], np.abs(model[n]).max())
            verify(cats[n], model[n], 8*(step + 2)*tol(n), what)
            now = state(cats[n])
            for k in now:
                if k == 'nz':
                    close(now[k].astype(float), other[n][k],
                          f'{what}: column {k} of {n}', rtol=1e-12)
                else:
                    equal(now[k], other[n][k], f'{what}: column {k} of {n}')
            check(cats[n].ntotal == len(model[n]) == len(cats[n]),
                  f'{what}: particle count')
    return ok(moved > 0, *sorted({o['op'] for o in case['ops']}),
              *['dtype=' + case['cats'][n]['dtype'] for n in 'ab'])


# -- the C++ catalogue -------------------------------------------------------

@st.composite
def cpp_strategy(draw):
    case = draw(strategy())
    for name in 'ab':
        case['cats'][name]['dtype'] = 'float'
    return case


def run_cpp(case):
    cats, model, seen, other = {}, {}, {}, {}
    for name in 'ab':
        cols = expand(case['cats'][name])
        n = len(cols['pos'])
        cols = [*cols['pos'].T] + [cols.get(k, np.ones(n))
                                   for k in ('nz', 'ws', 'wc')]
        cats[name] = drv.Catalogue()
        cats[name].load(cols)
        model[name] = np.stack(cols[:3], axis=1)
        other[name] = np.stack(cols[3:], axis=1)
        seen[name] = max(np.abs(model[name]).max(), 1.)
    moved = 0

    def verify_cpp(name, what, step):
        data, at = cats[name].data(), cats[name].attrs()
        seen[name] = max(seen[name], np.abs(model[name]).max())
        tol = 1e-9*seen[name]*(step + 2)
        close(data[:, :3], model[name], f'C++ {what}: coordinates', rtol=0.,
              atol=tol)
        equal(data[:, 3:6], other[name], f'C++ {what}: other columns')
        equal(at['min'], data[:, :3].min(0), f'C++ {what}: minima')
        equal(at['max'], data[:, :3].max(0), f'C++ {what}: maxima')
        close(at['span'], np.ptp(data[:, :3], axis=0), f'C++ {what}: spans',
              rtol=1e-12, atol=1e-300)

    for step, o in enumerate(case['ops']):
        a = o['who']
        b = 'b' if a == 'a' else 'a'
        what = f"step {step} {o['op']}"
        if o['op'] == 'offset':
            cats[a].offset(vec(o['arg']))
            model[a] = model[a] - vec(o['arg'])
        elif o['op'] in ('centre', 'pad'):
            L = vec(o['box'])
            ref = b if o['ref'] else a
            kw = {'ref': cats[b]} if o['ref'] else {}
            lo, hi = model[ref].min(0), model[ref].max(0)
            if o['op'] == 'centre':
                cats[a].centre(L, **kw)
                shift = L/2 - (lo + hi)/2
            elif o['scale'] == 'grid':
                cats[a].pad_grids(L, o['grid'], vec(o['pad']), **kw)
                shift = vec(o['pad'])*L/np.array(o['grid']) - lo
            else:
                cats[a].pad(L, vec(o['pad']), **kw)
                shift = vec(o['pad'])*L - lo
            for n in ((a, b) if o['ref'] else (a,)):
                seen[n] = max(seen[n], np.abs(model[ref]).max(),
                              np.abs(shift).max())
                model[n] = model[n] + shift
        elif o['op'] == 'periodise':
            L = vec(o['box'])
            cats[a].periodise(L)
            want = np.mod(model[a], L)
            got = cats[a].data()[:, :3]
            check(np.all(got >= 0) and np.all(got < L),
                  f'C++ {what}: coordinates outside [0, box size): '
                  f'{got[~((got >= 0) & (got < L))]}')
            d = np.abs(got - want)
            check(np.all(np.minimum(d, L - d) <= 1e-9*seen[a]*(step + 2)),
                  f'C++ {what}: displaced by {d.max()} modulo the box')
            model[a] = np.where(d > L/2, got, want)
        else:
            continue
        moved += 1
        for n in 'ab':
            verify_cpp(n, what, step)
    for n in 'ab':
        cats[n].close()
    return ok(moved > 0, *sorted({o['op'] for o in case['ops']}))


CHECKS = [
    Sub('cpp', cpp_strategy, run_cpp, quick=4000, thorough=400000, shards=2,
        rule='the same sequences on the C++ catalogue used by the program; '
             'non-trivial if some operation moves particles'),
    Sub('history', strategy, run, quick=3000, thorough=300000, shards=6,
        rule='random sequences of placement operations on two catalogues '
             'of several coordinate types; non-trivial if some operation '
             'moves particles'),
]
