"""C22: extrapolation, array checks and reshaping against their definitions."""
import warnings

import numpy as np
from hypothesis import strategies as st

import drv
import gen
from core import Violation, Sub, check, close, equal, expect_raises, ok

TARGETS = ['py', 'drv']
ASSUMPTIONS = [
    'The oscillatory log-linear law leaves the estimate of the decay rate '
    'open: it is decided exactly for single-peaked and monotonic samples '
    '(rate of the end points, constant if growing outwards), and by '
    'invariants otherwise.',
    'Arrays far from and exactly at a condition are decided; the tolerance '
    'of spacing checks is not.',
]


# -- one dimension --------------------------------------------------------------------

@st.composite
def one_strategy(draw):
    return {
        'law': draw(gen.scalars('pad', 'lin', 'loglin')),
        'n': draw(st.integers(2, 20)), 'ext': draw(st.integers(0, 15)),
        'kind': draw(gen.scalars('walk', 'free', 'free', 'int', 'zero ends',
                                 'loglin', 'lin')),
        'form': draw(gen.scalars('array', 'list', 'column', 'row')),
        'pads': [draw(gen.scalars(0., -1.5, 2., 'end')) for _ in range(2)],
        'seed': draw(gen.seeds()),
    }


def values(kind, n, seed, law='lin'):
    rng = np.random.default_rng(seed)
    sign = (-1.)**(seed % 2)
    if kind == 'walk' or (kind == 'free' and law == 'loglin'):
        a = sign*np.exp(np.cumsum(rng.uniform(-.5, .5, n)))
        if kind == 'free' and n > 4:
            a[2:-2] = rng.normal(size=n - 4)
        return a
    if kind == 'int':
        return (sign*rng.integers(1, 9, n)).astype(int)
    if kind == 'zero ends':
        a = sign*np.exp(rng.uniform(-1, 1, n))
        m = 1 + seed % 3
        if seed % 5 < 3:
            a[:m] = 0.
        if seed % 5 > 1:
            a[-m:] = 0.
        return a
    if kind == 'loglin':
        return sign*np.exp(rng.uniform(-1, 1)*np.arange(n) + rng.uniform())
    if kind == 'lin':
        return rng.uniform(-1, 1)*np.arange(n) + rng.normal()
    return rng.normal(size=n)


def law_1d(law, a, n, pads=(0., 0.)):
    a = np.asarray(a, dtype=float)
    lo, hi = [], []
    for i in range(1, n + 1):
        if law == 'pad':
            lo.insert(0, pads[0])
            hi.append(pads[1])
        elif law == 'lin':
            lo.insert(0, a[0] - i*(a[1] - a[0]))
            hi.append(a[-1] + i*(a[-1] - a[-2]))
        else:
            lo.insert(0, a[0]*(a[0]/a[1])**i if a[0] else 0.)
            hi.append(a[-1]*(a[-1]/a[-2])**i if a[-1] else 0.)
    return np.concatenate([lo, a, hi])


def same_signs(a):
    return (a[0] == 0 or a[0]*a[1] > 0) and (a[-1] == 0 or a[-1]*a[-2] > 0)


def run_one(case):
    from triumvirate import _arrayops as ao
    law, n_ext = case['law'], case['ext']
    a = values(case['kind'], case['n'], case['seed'], law)
    pads = [float(a[[0, -1][i]]) if p == 'end' else p
            for i, p in enumerate(case['pads'])]
    shaped = {'array': a, 'list': a.tolist(), 'column': a[:, None],
              'row': a[None, :]}[case['form']]
    f = {'pad': lambda: ao.extrap_pad(shaped, n_ext, *pads),
         'lin': lambda: ao.extrap_lin(shaped, n_ext),
         'loglin': lambda: ao.extrap_loglin(shaped, n_ext)}[law]
    if law == 'loglin' and not same_signs(a):
        expect_raises(ao.MixedSignError, f, 'log-linear law across signs')
        return ok(False, 'mixed signs')
    keep = a.copy()
    with np.errstate(all='raise'):
        got = f()
    equal(a, keep, 'input after extrapolation')
    want = law_1d(law, a, n_ext, pads)
    check(isinstance(got, np.ndarray), f'{type(got)} returned')
    close(got, want, f'{law} extrapolation', rtol=1e-10,
          scale=0. if law != 'lin' else float(np.abs(want).max()))
    equal(got[n_ext:n_ext + case['n']], a, 'original block')
    # the library of the program
    if not drv.available():
        return ok(n_ext > 0, law, case['kind'])
    option = {'pad': 0, 'lin': 1, 'loglin': 2}[law]
    a = np.asarray(a, dtype=float)
    strict = law == 'loglin' and np.any(a[1:]*a[:-1] <= 0)
    if strict:
        expect_raises(drv.DriverError, lambda: drv.extrap(option, a, n_ext),
                      'log-linear law across signs in C++')
    else:
        close(drv.extrap(option, a, n_ext, *pads), want,
              f'{law} extrapolation in C++', rtol=1e-10,
              scale=0. if law != 'lin' else float(np.abs(want).max()))
    return ok(n_ext > 0, law, case['kind'])


# -- oscillatory law ----------------------------------------------------------------------

@st.composite
def oscil_strategy(draw):
    return {
        'kind': draw(gen.scalars('peak', 'peak', 'rise', 'fall', 'waves',
                                 'waves', 'noise')),
        'n': draw(st.integers(10, 60)), 'ext': draw(st.integers(0, 20)),
        'at': draw(st.floats(0., 1.)), 'rate': draw(st.floats(.02, .6)),
        'period': draw(st.floats(2.5, 30.)),
        'amp': draw(gen.scalars(1., -3., 1e-8, -1e6)),
        'seed': draw(gen.seeds()),
    }


def oscil_samples(case):
    rng = np.random.default_rng(case['seed'])
    n, rate = case['n'], case['rate']
    steps = rate*rng.uniform(.5, 1.5, n - 1)
    if case['kind'] == 'peak':
        p = 4 + int(case['at']*(n - 9))
        steps[p:] *= -1
    elif case['kind'] == 'fall':
        steps *= -1
    elif case['kind'] == 'waves':
        i = np.arange(n)
        env = np.exp(-rate*.2*np.abs(i - case['at']*n))
        return case['amp']*env*np.cos(
            2*np.pi*i/case['period'] + rng.uniform(0, 6))
    elif case['kind'] == 'noise':
        return case['amp']*rng.normal(size=n)
    return case['amp']*np.exp(np.concatenate([[0.], np.cumsum(steps)]))


def run_oscil(case):
    from triumvirate import _arrayops as ao
    n_ext, n = case['ext'], case['n']
    a = oscil_samples(case)
    keep = a.copy()
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        got = ao.extrap_loglin_oscil(a, n_ext)
    equal(a, keep, 'input after extrapolation')
    equal(got[n_ext:n_ext + n], a, 'original block')
    check(len(got) == n + 2*n_ext, f'{len(got)} samples')
    lo, hi = got[:n_ext][::-1], got[n_ext + n:]
    check(np.all(np.isfinite(got)), 'extrapolated values are finite')
    for end, side, name in ((a[0], lo, 'lower'), (a[-1], hi, 'upper')):
        chain = np.concatenate([[end], side])
        check(np.all(chain*end >= 0), f'{name} side changes sign')
        check(np.all(np.abs(chain[1:]) <= np.abs(chain[:-1])*(1 + 1e-12)),
              f'{name} side grows outwards')
        if n_ext > 1 and np.all(np.abs(chain) > 1e-290):
            r = chain[1:]/chain[:-1]
            close(r, np.full(n_ext, r[0]), f'{name} side is not log-linear',
                  rtol=1e-7)
    diverging = [w for w in caught
                 if issubclass(w.category, ao.DivergenceWarning)]
    if n_ext and case['kind'] in ('peak', 'rise', 'fall'):
        want_lo = 1. if case['kind'] == 'fall' else a[0]/a[1]
        want_hi = 1. if case['kind'] == 'rise' else a[-1]/a[-2]
        steps = np.arange(1, n_ext + 1)
        close(lo, a[0]*want_lo**steps, 'lower side', rtol=1e-7)
        close(hi, a[-1]*want_hi**steps, 'upper side', rtol=1e-7)
        check(len(diverging) == (case['kind'] != 'peak'),
              f'{len(diverging)} warnings of divergence')
    if n_ext and case['kind'] in ('waves', 'noise') and not diverging:
        # without a warning the rate is that of the samples themselves
        for end, side in ((a[0], lo), (a[-1], hi)):
            check(end == 0 or abs(side[0]) <= abs(end), 'decay')
    # the law does not depend on the units of the samples, and mirrors
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        close(ao.extrap_loglin_oscil(-4*a, n_ext), -4*got,
              'extrapolation of rescaled samples', rtol=1e-9,
              scale=1e-12*np.abs(got).max())
        two = ao.extrap2d_loglin_oscil(
            np.outer(a, [1., 2., 3., 4., 5., 4., 3., 2., 1.]), (n_ext, 0))
    close(two, np.outer(got, [1., 2., 3., 4., 5., 4., 3., 2., 1.]),
          'extrapolation along columns', rtol=1e-9,
          scale=1e-12*np.abs(got).max())
    return ok(n_ext > 0, case['kind'])


# -- two dimensions -------------------------------------------------------------------------

@st.composite
def two_strategy(draw):
    return {
        'law': draw(gen.scalars('pad', 'lin', 'loglin', 'oscil')),
        'shape': [draw(st.integers(2, 12)) for _ in range(2)],
        'ext': draw(st.one_of(
            st.integers(0, 8), st.tuples(st.integers(0, 8),
                                         st.integers(0, 8)).map(list))),
        'tuple': draw(st.booleans()),
        'scalar': draw(st.booleans()),
        'bad': draw(gen.scalars(None, None, None, 0, 1, 2, 3)),
        'zeros': draw(gen.scalars(False, False, True)),
        'form': draw(gen.scalars('array', 'list', 'deep')),
        'seed': draw(gen.seeds()),
    }


def run_two(case):
    from triumvirate import _arrayops as ao
    law = case['law']
    nr, nc = case['shape']
    ext = case['ext']
    er, ec = ext if isinstance(ext, list) else (ext, ext)
    if isinstance(ext, list) and case['tuple']:
        ext = tuple(ext)
    rng = np.random.default_rng(case['seed'])
    if law in ('loglin', 'oscil'):
        a = np.exp(rng.uniform(-.5, .5, (nr, nc)))*(-1)**(case['seed'] % 2)
        if law == 'loglin' and case['zeros']:
            a[:max(0, min(1 + case['seed'] % 2, nr - 2))] = 0.
        if law == 'oscil':
            nr, nc = nr + 8, nc + 8
            a = np.outer(np.exp(-.05*(np.arange(nr) - nr/2)**2),
                         np.cos(np.arange(nc)*rng.uniform(.2, 1.)))
    else:
        a = rng.normal(size=(nr, nc))
    shaped = {'array': a, 'list': a.tolist(), 'deep': a[:, None, :]}[
        case['form']]
    keep = a.copy()
    if law == 'pad':
        if case['scalar']:
            c = float(rng.normal())
            pads = [c]*4
            vec = [np.full(nr, c), np.full(nr, c), np.full(nc, c),
                   np.full(nc, c)]
        else:
            vec = [rng.normal(size=nr), rng.normal(size=nr),
                   rng.normal(size=nc), rng.normal(size=nc)]
            left, right, top, bottom = vec
            top[0], top[-1] = left[0], right[0]
            bottom[0], bottom[-1] = left[-1], right[-1]
            pads = [v.copy() for v in vec]
            if case['bad'] is not None:
                i = case['bad']
                pads[2 + i//2][-(i % 2)] += 1.
                expect_raises(ValueError, lambda: ao.extrap2d_pad(
                    shaped, ext, *pads), 'inconsistent corner')
                return ok(True, 'inconsistent')
        got = ao.extrap2d_pad(shaped, ext, *pads)
        left, right, top, bottom = vec
        want = np.empty((nr + 2*er, nc + 2*ec))
        for i in range(nr + 2*er):
            for j in range(nc + 2*ec):
                r, c = i - er, j - ec
                if 0 <= r < nr and 0 <= c < nc:
                    v = a[r, c]
                elif 0 <= r < nr:
                    v = left[r] if c < 0 else right[r]
                elif 0 <= c < nc:
                    v = top[c] if r < 0 else bottom[c]
                else:
                    v = (left if c < 0 else right)[0 if r < 0 else -1]
                want[i, j] = v
    elif law == 'oscil':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = ao.extrap2d_loglin_oscil(shaped, ext)
            want = np.array([ao.extrap_loglin_oscil(v, ec) for v in a])
            want = np.array([ao.extrap_loglin_oscil(v, er)
                             for v in want.T]).T
    else:
        f = {'lin': ao.extrap2d_lin, 'loglin': ao.extrap2d_loglin}[law]
        with np.errstate(all='raise'):
            got = f(shaped, ext)
        want = np.array([law_1d(law, v, ec) for v in a])
        want = np.array([law_1d(law, v, er) for v in want.T]).T
    equal(a, keep, 'input after extrapolation')
    close(got, want, f'two-dimensional {law} extrapolation', rtol=1e-9,
          scale='max' if law == 'lin' else 0.)
    equal(got[er:er + nr, ec:ec + nc], a, 'original block')
    return ok(er + ec > 0, law, 'unequal' if er != ec else 'equal')


# -- checks ------------------------------------------------------------------------------------

@st.composite
def check_strategy(draw):
    return {
        'dims': draw(gen.scalars(1, 2)),
        'shape': [draw(st.integers(2, 9)) for _ in range(2)],
        'kind': draw(gen.scalars('lin', 'loglin', 'sorted', 'signs',
                                 'free', 'zero end', 'constant')),
        'spoil': draw(st.booleans()), 'down': draw(st.booleans()),
        'form': draw(gen.scalars('array', 'list', 'deep')),
        'seed': draw(gen.seeds()),
    }


def lin(v):
    d = np.diff(v)
    return np.allclose(d, d.mean())


def loglin(v):
    if not np.all(v[1:]*v[:-1] > 0):
        return False
    d = np.diff(np.log(np.abs(v)))
    return np.allclose(d, d.mean())


def run_check(case):
    from triumvirate import _arrayops as ao
    rng = np.random.default_rng(case['seed'])
    shape = case['shape'] if case['dims'] == 2 else case['shape'][:1]
    base = sum(np.reshape(rng.uniform(.2, 1.)*np.arange(n),
                          [-1 if i == j else 1 for j in range(len(shape))])
               for i, n in enumerate(shape)) + rng.uniform(.5, 2.)
    kind = case['kind']
    if kind == 'lin':
        a = base
    elif kind == 'loglin':
        a = np.exp(base)*(-1)**(case['seed'] % 2)
    elif kind == 'sorted':
        a = base**2 + np.sin(base)*.2
    elif kind == 'signs':
        a = np.exp(rng.uniform(-1, 1, shape))
    elif kind == 'constant':
        a = np.full(shape, 2.5)
    else:
        a = rng.normal(size=shape)
    if case['down']:
        a = a[tuple(slice(None, None, -1) for _ in shape)]
    a = np.array(a, dtype=float)
    if kind == 'zero end':
        a[(0,)*len(shape)] = 0.
    if case['spoil']:
        spot = tuple(int(rng.integers(n)) for n in shape)
        a[spot] += rng.choice([-3., 4.])*(1 + abs(a[spot]))
    rows = [a] if case['dims'] == 1 else list(a) + list(a.T)
    halves = [[a]] if case['dims'] == 1 else [list(a), list(a.T)]
    truth = {
        'check_sorted': all(
            all(np.all(np.diff(v) >= 0) for v in half)
            or all(np.all(np.diff(v) <= 0) for v in half)
            for half in halves),
        'check_epsign': all(same_signs(v) for v in rows),
        'check_lin': all(lin(v) for v in rows),
        'check_loglin': all(loglin(v) for v in rows),
    }
    # ends may be zero only where their neighbours agree (outer lines only)
    if case['dims'] == 2:
        ends = [(a[:, 0], a[:, 1]), (a[:, -1], a[:, -2]),
                (a[0], a[1]), (a[-1], a[-2])]
        truth['check_epsign'] = all(
            np.all((e == 0) | (e*m > 0)) for e, m in ends)
    f = ao._check_1d_array if case['dims'] == 1 else ao._check_2d_array
    shaped = {'array': a, 'list': a.tolist(), 'deep': a[..., None]}[
        case['form']]
    error = {'check_sorted': ao.OrderError, 'check_epsign':
             ao.MixedSignError, 'check_lin': ao.SpacingError,
             'check_loglin': (ao.SpacingError, ao.MixedSignError)}
    for name, want in truth.items():
        try:
            with np.errstate(all='ignore'):
                out = f(shaped, **{name: True})
        except error[name]:
            if want:
                raise Violation(f'{name} rejects {a.tolist()}')
            continue
        except ValueError as e:
            raise Violation(f'{name} raises {e!r} for {a.tolist()}')
        if not want and not (name == 'check_loglin' and case['dims'] == 2
                             and a.min() < 0 < a.max()):
            raise Violation(f'{name} accepts {a.tolist()}')
        if want:
            equal(out, a, f'array returned by {name}')
    wrong = {1: [np.ones((3, 3)), [1.], 2.], 2: [np.ones(4), [[1., 2.]],
                                                 np.ones((2, 2, 2))]}
    for v in wrong[case['dims']]:
        expect_raises(ao.ShapeError, lambda: f(v), 'wrong dimensions')
    if case['dims'] == 1 and drv.available():
        got = drv.check(a, lin=True)
        check((got == 0) == truth['check_lin'],
              f'C++ linear spacing of {a.tolist()}: {got}')
        got = drv.check(a, loglin=True)
        check((got == 0) == truth['check_loglin'],
              f'C++ log-linear spacing of {a.tolist()}: {got}')
        got = drv.check(a, sign=True)
        check((got == 0) == bool(np.all(a[1:]*a[:-1] > 0)),
              f'C++ signs of {a.tolist()}: {got}')
    return ok(any(truth.values()) and not all(truth.values()), kind,
              'spoilt' if case['spoil'] else 'as made', f"{case['dims']}-d")


# -- reshaping -----------------------------------------------------------------------------------

@st.composite
def reshape_strategy(draw):
    return {
        'n': draw(st.integers(1, 15)),
        'shape': draw(gen.scalars('triu', 'full')),
        'dtype': draw(gen.scalars('float', 'complex', 'int', 'single')),
        'form': draw(gen.scalars('array', 'column-major', 'default')),
        'wrong': draw(gen.scalars(None, None, None, None, 'length', 'size',
                                  'dims', 'shape')),
        'seed': draw(gen.seeds()),
    }


def run_reshape(case):
    from triumvirate._arrayops import reshape_threept_datatab
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    x = np.sort(rng.uniform(1, 100, n))
    m = rng.integers(-50, 50, (n, n)).astype(float)
    if case['dtype'] == 'complex':
        m = m + 1j*rng.integers(-50, 50, (n, n))
    if case['dtype'] == 'single':
        m = m.astype(np.float32)
    if case['dtype'] == 'int':
        m = m.astype(int)
    pairs, flat = [], []
    for i in range(n):
        for j in range(i if case['shape'] == 'triu' else 0, n):
            pairs.append((x[i], x[j]))
            flat.append(m[i, j])
    pairs, flat = np.array(pairs), np.array(flat)
    if case['form'] == 'column-major':
        pairs = np.asfortranarray(pairs)
    kw = {} if case['shape'] == 'triu' and case['form'] == 'default' \
        else {'shape': case['shape']}
    wrong = case['wrong']
    if wrong:
        bad = {
            'length': (pairs, flat[:-1]),
            'size': (np.vstack([pairs, pairs[-1:]]), np.append(flat, 1.)),
            'dims': (pairs[:, 0], flat), 'shape': (pairs, flat)}[wrong]
        if wrong == 'size' and len(bad[1]) in (1, 3, 4, 6, 10, 15, 16, 25,
                                               36, 45, 9, 21, 28):
            return ok(False)
        if wrong == 'shape':
            kw['shape'] = 'tril'
        expect_raises(ValueError, lambda: reshape_threept_datatab(
            *bad, **kw), f'wrong {wrong}')
        return ok(True, f'wrong {wrong}')
    keep = pairs.copy(), flat.copy()
    coords, got = reshape_threept_datatab(pairs, flat, **kw)
    equal(pairs, keep[0], 'pairs after reshaping')
    equal(flat, keep[1], 'values after reshaping')
    equal(coords, x, 'common coordinates')
    want = m if case['shape'] == 'full' else np.triu(m) + np.triu(m, 1).T
    equal(got, want, 'two-dimensional array')
    # and back
    pick = np.triu_indices(n) if case['shape'] == 'triu' else \
        tuple(np.indices((n, n)).reshape(2, -1))
    equal(got[pick], flat, 'values flattened again')
    return ok(n > 1, case['shape'], case['dtype'])


@st.composite
def argsort_strategy(draw):
    return {'v': draw(st.lists(st.integers(-8, 8) | st.integers(
        -2**31, 2**31 - 1), max_size=40))}


def run_argsort(case):
    v = np.array(case['v'], dtype=np.int32)
    i = drv.argsort(v)
    equal(np.sort(i), np.arange(len(v)), 'indices')
    equal(v[i], np.sort(v), 'sorted values')
    return ok(len(v) > 1)


CHECKS = [
    Sub('one', one_strategy, run_one, 1200, 60000,
        rule='at least one added sample'),
    Sub('oscil', oscil_strategy, run_oscil, 600, 30000,
        rule='at least one added sample'),
    Sub('two', two_strategy, run_two, 900, 50000,
        rule='at least one added sample'),
    Sub('check', check_strategy, run_check, 900, 50000,
        rule='some conditions hold and some do not'),
    Sub('reshape', reshape_strategy, run_reshape, 500, 20000,
        rule='more than one point, or malformed data'),
    Sub('argsort', argsort_strategy, run_argsort, 300, 10000,
        rule='more than one value'),
]
