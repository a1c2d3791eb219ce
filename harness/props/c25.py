"""C25: three-point window containers against a dictionary model."""
import os
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import make_interp_spline

import gen
import meas
from core import Sub, Violation, check, close, equal, expect_raises, ok, scratch
from props.c23 import allowed
from props.c24 import FORMS_3, grid, key

TARGETS = ['py']
ASSUMPTIONS = [
    'Points are either logarithmically spaced to rounding or clearly not.',
    'Files written by a NumPy archive have the name with extension .npz.',
]
LABELS = [[a, b, c] for a in range(4) for b in range(4) for c in range(4)
          if allowed((a, b, c))]


def order(ms):
    return sorted(ms, key=lambda m: m[-1:] + m[:-1])


# -- cases -------------------------------------------------------------------------------

RANGE = st.tuples(
    st.one_of(st.none(), st.floats(0., .7)),
    st.one_of(st.none(), st.floats(.3, 1.2))).map(list)
INDEX = st.one_of(
    st.tuples(st.one_of(st.none(), st.integers(-6, 4)),
              st.one_of(st.none(), st.integers(4, 20),
                        st.integers(-4, -1))).map(list),
    st.tuples(st.none(), st.none(), gen.scalars(1, 2)).map(list))


@st.composite
def op_strategy(draw):
    op = draw(gen.scalars('select', 'select', 'select', 'resample', 'reload',
                          'redict', 'look'))
    out = {'op': op, 'on': draw(st.integers(0, 3))}
    if op == 'select':
        out.update(
            rrange=draw(st.one_of(st.none(), RANGE, st.lists(st.tuples(
                st.integers(0, 5), RANGE).map(list), min_size=1,
                max_size=2))),
            idxrange=draw(st.one_of(st.none(), INDEX, st.lists(st.tuples(
                st.integers(0, 5), INDEX).map(list), min_size=1,
                max_size=2))),
            exact=draw(st.booleans()),
            inplace=draw(gen.scalars(None, False, True)))
    elif op == 'resample':
        out.update(spacing=draw(gen.scalars(None, 'lglin', 'lin')),
                   size=draw(gen.scalars(None, 5, 9, 16)),
                   pair=draw(st.booleans()),
                   spline=draw(gen.scalars(None, 1, 2, 3)))
    elif op == 'redict':
        out.update(sources=draw(st.booleans()), r=draw(gen.scalars(
            'dict', 'common')))
    out['form'] = draw(gen.scalars(*FORMS_3))
    return out


@st.composite
def strategy(draw):
    ms = draw(st.lists(st.sampled_from(LABELS), min_size=1, max_size=4,
                       unique_by=tuple))
    return {
        'ms': ms,
        'source': draw(gen.scalars('arrays', 'arrays', 'dict', 'texts',
                                   'texts')),
        'forms': [draw(gen.scalars(*FORMS_3)) for _ in range(2)],
        'n': draw(st.integers(4, 14)),
        'common': draw(st.booleans()),
        'spacing': draw(gen.scalars('log', 'log', 'lin', 'uneven', 'one')),
        'loglin': draw(gen.scalars(None, True, False, 7, 16)),
        'alpha': draw(gen.scalars(None, 1., .1, 3.)),
        'shot': draw(gen.scalars(None, True, False)),
        'cols': draw(gen.scalars(None, [0, 2, 4, 7], [5, 3, 1, 0])),
        'ops': draw(st.lists(op_strategy(), max_size=6)),
        'seed': draw(gen.seeds()),
    }


# -- the model ------------------------------------------------------------------------------

def surface(x, z, k, t):
    z = make_interp_spline(x, z, k=k, axis=0)(t)
    return make_interp_spline(x, z, k=k, axis=1)(t)


def even_log(x):
    d = np.diff(np.log(x))
    return np.allclose(d, d.mean())


class Model:
    def __init__(self, r, Q, sources):
        self.r, self.Q, self.sources = dict(r), dict(Q), list(sources)
        self.loose = {m: False for m in Q}

    def copy(self):
        out = Model(self.r, self.Q, self.sources)
        out.loose = dict(self.loose)
        return out

    def resample(self, spacing='lglin', size=None, k=3):
        space = np.geomspace if spacing == 'lglin' else np.linspace
        for m in self.Q:
            x = self.r[m]
            t = space(x[0], x[-1], size or len(x))
            self.Q[m] = surface(x, self.Q[m], k, t)
            self.r[m] = t
            self.loose[m] = True

    def compare(self, w, what):
        from triumvirate.winconv import Multipole, ThreePointWindow
        check(isinstance(w, ThreePointWindow), f'{what}: {type(w)}')
        want = order(self.Q)
        check(isinstance(w.multipoles, list)
              and all(isinstance(m, Multipole) for m in w.multipoles)
              and [m.index for m in w.multipoles] == want,
              f'{what}: multipoles {w.multipoles}')
        check(isinstance(w.sources, list)
              and w.sources == self.sources, f'{what}: sources {w.sources}')
        for name in ('r', 'Q', 'Q_diag'):
            d = getattr(w, name)
            check(isinstance(d, dict) and sorted(
                m.index for m in d) == sorted(want), f'{what}: {name} {d}')
        for m in want:
            obj = Multipole(m)
            r, Q = np.asarray(w.r[obj]), np.asarray(w.Q[obj])
            if self.loose[m]:
                close(r, self.r[m], f'{what}: points of {m}', rtol=1e-9)
                close(Q, self.Q[m], f'{what}: {m}', rtol=1e-7, scale='max')
            else:
                equal(r, self.r[m], f'{what}: points of {m}')
                equal(Q, self.Q[m], f'{what}: {m}')
            equal(w.Q_diag[obj], np.diag(Q), f'{what}: diagonal of {m}')


def contents(w):
    return {n: {m: np.array(v) for m, v in getattr(w, n).items()}
            for n in ('r', 'Q', 'Q_diag')}, list(w.multipoles), \
        list(w.sources)


def same_contents(w, kept, what):
    d, ms, sources = kept
    check(w.multipoles == ms and w.sources == sources, f'{what}: labels')
    for n in d:
        check(set(d[n]) == set(getattr(w, n)), f'{what}: keys of {n}')
        for m in d[n]:
            equal(getattr(w, n)[m], d[n][m], f'{what}: {n} of {m}')


# -- building ----------------------------------------------------------------------------------

def points(case, rng, i):
    n = case['n'] + (0 if case['common'] else i % 3)
    kind = case['spacing']
    if kind == 'one':
        kind = 'lin' if i == 0 else 'log'
    if kind == 'log':
        return np.geomspace(.5, 60., n)
    if kind == 'lin':
        return np.linspace(5., 60., n)
    # the upper half is shifted, so that a step is clearly larger
    return grid(rng, n, .5, 60.) * (1 + .3*(np.arange(n) >= n//2))


def build(case, rng):
    from triumvirate.winconv import ThreePointWindow
    ms = [tuple(m) for m in case['ms']]
    common = case['common'] and case['spacing'] != 'one'
    r, Q, pairs, flat = {}, {}, {}, {}
    first = points(case, rng, 0)
    for i, m in enumerate(ms):
        r[m] = first if common else points(case, rng, i)
        n = len(r[m])
        z = np.round(rng.normal(size=(n, n))*64)/64
        if m[0] == m[1]:
            z = np.triu(z) + np.triu(z, 1).T
        Q[m] = z
        i, j = np.triu_indices(n) if m[0] == m[1] else \
            np.indices((n, n)).reshape(2, -1)
        pairs[m] = np.column_stack([r[m][i], r[m][j]])
        flat[m] = z[i, j]
    f = case['forms']
    one_shape = len({v.shape for v in pairs.values()}) == 1
    alpha = 1. if case['alpha'] is None else case['alpha']
    kw = {}
    if case['alpha'] is not None:
        kw['alpha_contrast'] = alpha
    if case['loglin'] is not None:
        kw['make_loglin'] = case['loglin']
    sources = ['array']*len(ms)
    if case['source'] == 'dict':
        d = {'Q': {key(m, f[0]): v for m, v in Q.items()},
             'r': first if common else {key(m, f[1]): v
                                        for m, v in r.items()}}
        if case['shot'] is not None:
            sources = d['sources'] = [f'made up {i}' for i in range(len(ms))]
        return ThreePointWindow.load_from_dict(d), Model(r, Q, sources)
    if case['source'] == 'arrays':
        if common and one_shape:
            args = pairs[ms[0]]
        else:
            args = {key(m, f[0]): v for m, v in pairs.items()}
        keep = [v.copy() for v in flat.values()]
        given = {key(m, f[1]): v for m, v in flat.items()}
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            w = ThreePointWindow(args, given, **kw)
        for v, k in zip(flat.values(), keep):
            equal(v, k, 'samples after building')
    else:
        paths = {}
        cols = case['cols']
        shot = case['shot'] is not False
        if case['shot'] is not None:
            kw['subtract_shotnoise'] = case['shot']
        if cols is None and not shot:
            cols = [1, 4, 6]
        if cols is not None:
            kw['usecols'] = tuple(cols) if shot else tuple(cols[:3])
        use = cols or [1, 4, 6, 8]
        for m in ms:
            table = rng.normal(size=(len(flat[m]), 10))
            table[:, use[0]], table[:, use[1]] = pairs[m].T
            noise = np.round(rng.normal(size=len(flat[m]))*16)/16
            table[:, use[2]] = flat[m] + (noise if shot else 0.)
            if shot:
                table[:, use[3]] = noise
            name = 'win{}{}{}.txt'.format(*m)
            np.savetxt(name, table, fmt='%.17e', header='a header\nanother')
            paths[key(m, f[0])] = name
        sources = ['win{}{}{}.txt'.format(*m) for m in order(ms)]
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            w = ThreePointWindow.load_from_textfiles(paths, **kw)
    model = Model(r, {m: alpha**2*v for m, v in Q.items()}, sources)
    if not all(even_log(x) for x in r.values()):
        if case['loglin'] is False:
            check(len(caught) > 0, 'no warning of spacings')
        else:
            model.resample(size=None if case['loglin'] in (None, True)
                           else case['loglin'])
    elif alpha != 1.:
        model.loose = {m: True for m in Q}
    return w, model


# -- running --------------------------------------------------------------------------------------

def limits(op, model, m, spec):
    """A range in units of the largest separation, maybe of exact points."""
    r = model.r[m]
    out = []
    for v, end in zip(spec, (0, -1)):
        if v is not None:
            v = float(v*r[-1])
            if op['exact']:
                v = float(r[min(np.searchsorted(r, v), len(r) - 1)])
            elif np.any(np.abs(r - v) < 1e-6*v):
                v *= 1 + 1e-3
        out.append(v)
    return tuple(out)


def select(model, ms, op, form):
    """The keyword arguments and the indices to keep."""
    keep = {m: np.ones(len(model.r[m]), bool) for m in ms}
    kw = {}

    def cut(m, lo, hi):
        r = model.r[m]
        keep[m] &= (r >= (lo or 0.)) & (r <= (np.inf if hi is None else hi))
    spec = op['rrange']
    if spec is not None:
        if spec and isinstance(spec[0], list):
            given = {}
            for i, s in spec:
                m = ms[i % len(ms)]
                given[m] = limits(op, model, m, s)
            for m, (lo, hi) in given.items():
                cut(m, lo, hi)
            kw['rrange'] = {key(m, form): v for m, v in given.items()}
        else:
            lo, hi = kw['rrange'] = limits(op, model, ms[0], spec)
            for m in ms:
                cut(m, lo, hi)
    spec = op['idxrange']
    if spec is not None:
        if spec and isinstance(spec[0], list):
            given = {ms[i % len(ms)]: tuple(s) for i, s in spec}
            kw['idxrange'] = {key(m, form): v for m, v in given.items()}
        else:
            kw['idxrange'] = tuple(spec)
            given = {m: tuple(spec) for m in ms}
        for m, s in given.items():
            chosen = np.zeros(len(keep[m]), bool)
            chosen[slice(*s)] = True
            keep[m] &= chosen
    return kw, keep


def run(case):
    from triumvirate.winconv import ThreePointWindow
    rng = np.random.default_rng(case['seed'])
    ms = order([tuple(m) for m in case['ms']])
    used = 0
    with scratch():
        w, model = build(case, rng)
        model.compare(w, 'new window')
        live = [(w, model)]
        for i, op in enumerate(case['ops']):
            at = op['on'] % len(live)
            w, model = live[at]
            what = f"step {i} ({op['op']})"
            kept = [(o, contents(o)) for j, (o, _) in enumerate(live)
                    if j != at]
            kept_self = contents(w)
            small = min(len(x) for x in model.r.values())
            if op['op'] == 'select':
                kw, keep = select(model, ms, op, op['form'])
                if min(k.sum() for k in keep.values()) == 0:
                    continue
                new = model.copy()
                for m in ms:
                    new.r[m] = model.r[m][keep[m]]
                    new.Q[m] = model.Q[m][np.ix_(keep[m], keep[m])]
                if op['inplace'] is not None:
                    kw['inplace'] = op['inplace']
                got = w.subselect(**kw)
                if op['inplace']:
                    check(got is None, f'{what}: {got} returned')
                    live[at] = (w, new)
                else:
                    check(got is not w, f'{what}: the same object')
                    same_contents(w, kept_self, f'{what}: original')
                    live.append((got, new))
                used += 1
            elif op['op'] == 'resample':
                k = op['spline'] or 3
                if small <= k:
                    continue
                kw = {}
                for name in ('spacing', 'size', 'spline'):
                    if op[name] is not None:
                        kw[name] = op[name]
                if op['size'] and op['pair']:
                    kw['size'] = (op['size'], op['size'])
                held = {m: (v, v.copy()) for m, v in w.Q.items()}
                got = w.resample(**kw)
                check(got is None, f'{what}: {got} returned')
                for v, old in held.values():
                    equal(v, old, f'{what}: held samples changed')
                model.resample(op['spacing'] or 'lglin', op['size'], k)
                used += 1
            elif op['op'] == 'reload':
                name = os.path.join(os.getcwd(), f'saved{i}.npz')
                w.save_to_file(name)
                same_contents(w, kept_self, f'{what}: saved window')
                got = ThreePointWindow.load_from_file(name)
                same_contents(got, kept_self, f'{what}: loaded window')
                live.append((got, model.copy()))
                used += 1
            elif op['op'] == 'redict':
                common = op['r'] == 'common' and len(
                    {v.tobytes() for v in w.r.values()}) == 1
                d = {'r': w.r[w.multipoles[0]] if common else {
                        key(m.index, op['form']): v for m, v in w.r.items()},
                     'Q': {key(m.index, op['form']): v
                           for m, v in w.Q.items()}}
                new = model.copy()
                if op['sources']:
                    d['sources'] = list(w.sources)
                else:
                    new.sources = ['array']*len(ms)
                live.append((ThreePointWindow.load_from_dict(d), new))
                used += 1
            for o, k in kept:
                same_contents(o, k, f'{what}: another window')
            for o, mod in live:
                mod.compare(o, what)
    return ok(used > 0 or len(ms) > 1, case['source'], case['spacing'],
              f"{len(case['ops'])} steps")


# -- measured windows ---------------------------------------------------------------------------

@st.composite
def measured_strategy(draw):
    return {
        'ms': draw(st.lists(st.sampled_from(
            [[0, 0, 0], [1, 1, 0], [2, 0, 2], [1, 1, 2], [0, 2, 2]]),
            min_size=1, max_size=2, unique_by=tuple)),
        'np': draw(st.integers(3, 25)), 'bins': draw(st.integers(4, 6)),
        'binning': draw(gen.scalars('lin', 'log')),
        'shot': draw(gen.scalars(None, True, False)),
        'alpha': draw(gen.scalars(None, .1)), 'seed': draw(gen.seeds()),
    }


def run_measured(case):
    """Windows loaded from the files their measurement has saved."""
    from triumvirate.catalogue import ParticleCatalogue
    from triumvirate.parameters import ParameterSet, fetch_paramset_template
    from triumvirate.threept import compute_3pcf_window
    from triumvirate.winconv import ThreePointWindow
    rng = np.random.default_rng(case['seed'])
    results, paths = {}, {}
    with scratch() as path:
        for m in case['ms']:
            d = fetch_paramset_template('dict')
            d['directories'] = {'catalogues': '.', 'measurements': '.'}
            d['tags']['output'] = ''
            d.update(catalogue_type='random', statistic_type='3pcf-win',
                     boxsize={a: 200. for a in 'xyz'},
                     ngrid={a: 8 for a in 'xyz'}, form='full',
                     assignment='cic', norm_convention='particle',
                     binning=case['binning'], range=[20., 95.],
                     num_bins=case['bins'], save_binned_vectors=False,
                     verbose=0)
            d['degrees'] = dict(zip(('ell1', 'ell2', 'ELL'), m))
            state = np.random.default_rng(case['seed'] % 1000)
            cat = ParticleCatalogue(*state.uniform(20, 180,
                                                   (3, case['np'])),
                                    nz=np.full(case['np'], 1e-3))
            results[tuple(m)] = meas.call(
                compute_3pcf_window, cat, paramset=ParameterSet(param_dict=d),
                save='.txt')
            names = [n for n in os.listdir('.') if n.endswith('.txt')
                     and n not in paths.values()]
            check(len(names) == 1, f'{names} saved')
            paths[tuple(m)] = names[0]
        kw = {} if case['shot'] is None else {
            'subtract_shotnoise': case['shot']}
        if case['shot'] is False:
            kw['usecols'] = (1, 4, 6)
        if case['alpha']:
            kw['alpha_contrast'] = case['alpha']
        # the bins of a measurement have the same centres, but only those
        # with the same pairs have the same effective separations
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            w = ThreePointWindow.load_from_textfiles(
                paths, make_loglin=False, **kw)
        for m, name in paths.items():
            res, (got,) = results[m], [k for k in w.Q if k.index == m]
            n = case['bins']
            flat = res['zeta_raw'] - (0. if case['shot'] is False
                                      else res['zeta_shot'])
            if m[0] == m[1]:
                want = np.zeros((n, n))
                want[np.triu_indices(n)] = flat.real
                want = np.triu(want) + np.triu(want, 1).T
                r = res['r2_eff'][:n]
            else:
                want = flat.real.reshape(n, n)
                r = res['r2_eff'][:n]
            want = want*(case['alpha'] or 1.)**2
            size = max(np.abs(res['zeta_raw']).max(), np.abs(
                res['zeta_shot']).max())
            close(w.r[got], r, f'separations of {m}', rtol=1e-8)
            close(w.Q[got], want, f'measured window {m}', rtol=1e-7,
                  scale=size*(case['alpha'] or 1.)**2)
        check(w.sources == [paths[m] for m in order(paths)],
              f'sources {w.sources}')
    return ok(True, f"{len(paths)} multipoles")


# -- invalid input ---------------------------------------------------------------------------------

@st.composite
def reject_strategy(draw):
    return {'what': draw(gen.scalars('length', 'shape', 'dims', 'cols',
                                     'three', 'spacing', 'points')),
            'n': draw(st.integers(4, 9)), 'sym': draw(st.booleans()),
            'seed': draw(gen.seeds())}


def run_reject(case):
    from triumvirate.winconv import ThreePointWindow
    n, what = case['n'], case['what']
    m = '110' if case['sym'] else '202'
    x = np.geomspace(1., 9., n)
    i, j = np.triu_indices(n) if case['sym'] else \
        np.indices((n, n)).reshape(2, -1)
    pairs, flat = np.column_stack([x[i], x[j]]), np.ones(len(i))
    if what == 'length':
        expect_raises(ValueError, lambda: ThreePointWindow(
            pairs, {m: flat[:-1]}), what)
    elif what == 'shape':
        for cut in (1, 2):
            k = len(i) - cut
            if (case['sym'] and int((8*k + 1)**.5)**2 == 8*k + 1) or (
                    not case['sym'] and int(k**.5)**2 == k):
                continue
            expect_raises(ValueError, lambda: ThreePointWindow(
                pairs[:k], {m: flat[:k]}), what)
    elif what == 'dims':
        expect_raises(ValueError, lambda: ThreePointWindow(
            pairs[:, 0], {m: flat}), what)
    elif what == 'points':
        expect_raises((KeyError, ValueError), lambda: ThreePointWindow(
            {'000': pairs}, {m: flat}), what)
    elif what == 'spacing':
        w = ThreePointWindow(pairs, {m: flat})
        expect_raises(ValueError, lambda: w.resample('log'), what)
    else:
        with scratch():
            np.savetxt('w.txt', np.column_stack([pairs]*5))
            cols, shot = ((0, 1, 2), True) if what == 'cols' else (
                (0, 1, 2, 3), False)
            expect_raises(ValueError, lambda: (
                ThreePointWindow.load_from_textfiles(
                    {m: 'w.txt'}, subtract_shotnoise=shot, usecols=cols)),
                what)
    return ok(True, what)


CHECKS = [
    Sub('history', strategy, run, 1500, 20000, shards=3,
        rule='an operation, or more than one multipole'),
    Sub('measured', measured_strategy, run_measured, 25, 600, shards=2,
        rule='every case'),
    Sub('reject', reject_strategy, run_reject, 60, 1000, rule='every case'),
]
