"""C02: catalogues hold the data they were given."""
import warnings

import numpy as np
from hypothesis import strategies as st

import drv
import gen
from core import Sub, check, close, equal, expect_raises, ok, scratch

TARGETS = ['py', 'drv']
ASSUMPTIONS = [
    'nbodykit is not installed in this sandbox: only the documented '
    'fallback of that reader is exercised; HDF5 is not built in the C++ '
    'library.',
]
COLS = ['x', 'y', 'z', 'nz', 'ws', 'wc']
VALUES = st.one_of(
    st.floats(-1e4, 1e4, allow_nan=False),
    st.integers(-1000, 1000).map(float),
    st.sampled_from([0., 1e-30, -2.5e12, 0.1, 3.]))


def table(draw, nmax=8):
    n = draw(st.integers(1, nmax))
    return {c: draw(st.lists(VALUES, min_size=n, max_size=n))
            for c in COLS}


def quiet(func, *args, **kwargs):
    """(result, categories of warnings)."""
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        res = func(*args, **kwargs)
    return res, [w.category.__name__ for w in log], [str(w.message)
                                                     for w in log]


def judge(cat, want, what):
    n = len(want['x'])
    check(len(cat) == n and cat.ntotal == n,
          f'{what}: {len(cat)} particles, ntotal {cat.ntotal}, not {n}')
    for c in COLS:
        got = np.asarray(cat[c])
        check(got.shape == (n,), f'{what}: column {c} has shape {got.shape}')
        equal(got.astype(float), np.asarray(want[c], float),
              f'{what}: column {c}')
    ws, wc = np.asarray(want['ws'], float), np.asarray(want['wc'], float)
    eps = 1e-5 if any(np.asarray(cat[c]).dtype == np.float32
                      for c in ('ws', 'wc')) else 1e-12
    mag = np.sum(np.abs(ws*wc)) + 1e-300
    close(float(cat.wtotal), np.sum(ws*wc), f'{what}: wtotal', rtol=0,
          atol=eps*mag)
    close(float(cat.wstotal), np.sum(ws), f'{what}: wstotal', rtol=0,
          atol=eps*np.sum(np.abs(ws)) + 1e-300)
    for ax in 'xyz':
        v = np.asarray(want[ax], float)
        check(tuple(map(float, cat.bounds[ax])) == (v.min(), v.max()),
              f'{what}: bounds of {ax} {cat.bounds[ax]}')
        single = np.asarray(cat[ax]).dtype == np.float32
        close(float(cat.spans[ax]), v.max() - v.min(), f'{what}: span',
              rtol=1e-6 if single else 1e-12, atol=1e-300)


# -- arrays ------------------------------------------------------------------

@st.composite
def arrays_strategy(draw):
    case = {'data': table(draw)}
    case['as'] = {c: draw(gen.scalars('array', 'list', 'tuple', 'strided',
                                      'int', 'float32', 'fortran'))
                  for c in COLS}
    case['opt'] = {c: draw(gen.scalars('array', 'scalar', 'missing'))
                   for c in ('nz', 'ws', 'wc')}
    case['sets'] = draw(st.lists(st.tuples(
        gen.scalars('x', 'y', 'z', 'nz', 'ws', 'wc', 'extra'),
        gen.scalars('array', 'list', 'scalar', 'aug'),
        st.integers(0, 2**31 - 1)).map(list), max_size=4))
    case['pick'] = draw(st.lists(st.integers(-20, 20), min_size=3,
                                 max_size=3))
    case['density'] = draw(st.tuples(
        gen.scalars('volume', 'cube', 'list', 'tuple', 'array', 'int array',
                    'both'),
        st.lists(st.integers(1, 3000), min_size=3, max_size=3)).map(list))
    return case


def fill_density(cat, how, sides, want):
    n = len(want['x'])
    vol = float(sides[0])*sides[1]*sides[2]
    if how == 'volume':
        cat.compute_mean_density(volume=vol)
    elif how == 'both':
        cat.compute_mean_density(volume=vol, boxsize=[1., 2., 3.])
    elif how == 'cube':
        vol = sides[0]**3
        cat.compute_mean_density(boxsize=float(sides[0]))
    else:
        cat.compute_mean_density(boxsize={
            'list': list, 'tuple': tuple, 'int array': np.array,
            'array': lambda v: np.array(v, dtype=float)}[how](sides))
    close(np.asarray(cat['nz'], float), np.full(n, n/vol),
          f'mean density of a box {sides} given as {how}', rtol=1e-12)
    want['nz'] = np.asarray(cat['nz'], float).copy()
    judge(cat, want, 'after computing the mean density')


def shaped(values, kind):
    v = np.array(values, dtype=float)
    if kind == 'int':
        v = np.clip(np.round(v), -2**40, 2**40).astype(np.int64)
    elif kind == 'float32':
        v = np.clip(v, -1e6, 1e6).astype(np.float32)
    out = v
    if kind == 'list':
        out = v.tolist()
    elif kind == 'tuple':
        out = tuple(v.tolist())
    elif kind == 'strided':
        big = np.full(2*len(v), -77.)
        big[::2] = v
        out = big[::2]
    elif kind == 'fortran':
        out = np.asfortranarray(np.stack([v, v + 1]))[0]
    return out, v.astype(float)


def run_arrays(case):
    from triumvirate.catalogue import ParticleCatalogue
    given, want = {}, {}
    for c in COLS:
        given[c], want[c] = shaped(case['data'][c], case['as'][c])
    n = len(want['x'])
    kw = {}
    for c in ('nz', 'ws', 'wc'):
        how = case['opt'][c]
        if how == 'array':
            kw[c] = given[c]
        elif how == 'scalar':
            kw[c] = float(want[c][0])
            want[c] = np.full(n, want[c][0])
        else:
            want[c] = np.full(n, 0. if c == 'nz' else 1.)
    before = {c: np.array(given[c], copy=True) for c in COLS}
    cat, cats, _ = quiet(ParticleCatalogue, given['x'], given['y'],
                         given['z'], **kw)
    check(('DefaultValueWarning' in cats) == (case['opt']['nz'] == 'missing'),
          f'warnings for nz={case["opt"]["nz"]}: {cats}')
    judge(cat, want, 'from arrays')
    # items
    i, j, k = case['pick']
    if -n <= i < n:
        row = cat[i]
        for c in COLS:
            check(float(row[c]) == want[c][i], f'cat[{i}][{c!r}]')
    sub = cat[j:k]
    for c in COLS:
        equal(np.asarray(sub[c], float), want[c][j:k], f'cat[{j}:{k}]')
    two = cat[['z', 'ws']]
    equal(np.asarray(two['z'], float), want['z'], "cat[['z', 'ws']]")
    equal(np.asarray(two['ws'], float), want['ws'], "cat[['z', 'ws']]")
    idx = [p % n for p in case['pick']]
    equal(np.asarray(cat[idx]['y'], float), want['y'][idx], f'cat[{idx}]')
    # header
    head = cat.write_attrs_as_header()
    check(f'ntotal = {n:d}' in head, f'header lacks the count: {head}')
    check('wtotal = {:.3f}'.format(cat.wtotal) in head, f'header: {head}')
    # setting columns
    for c, how, seed in case['sets']:
        new = np.random.RandomState(seed).uniform(-5, 50, n)
        if how == 'scalar':
            cat[c] = float(new[0])
            new = np.full(n, new[0])
        elif how == 'aug' and c != 'extra':
            cat[c] = cat[c] * 2
            new = np.asarray(want[c], float) * 2
        elif how == 'list':
            cat[c] = new.tolist()
        else:
            cat[c] = new
            keep = new.copy()
            new += 7     # the catalogue must hold its own copy
            new = keep
        want[c] = new
        equal(np.asarray(cat[c], float), new, f'column {c} after being set')
        judge(cat, want, f'after setting {c}')
    for bad in (3, slice(None), ('x', 'y')):
        expect_raises(ValueError, lambda: cat.__setitem__(bad, want['x']),
                      f'setting values with key {bad!r}')
    judge(cat, want, 'after rejected updates')
    fill_density(cat, *case['density'], want)
    # the arguments are independent of the catalogue
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cat.centre(10.)
        cat.periodise(3.)
    for c in COLS:
        equal(np.asarray(given[c]), before[c], f'argument {c} was changed')
    return ok(n > 1, *[f'as={case["as"][c]}' for c in 'xyz'])


# -- files -----------------------------------------------------------------

@st.composite
def file_strategy(draw):
    case = {'data': table(draw)}
    present = ['x', 'y', 'z'] + [c for c in ('nz', 'ws', 'wc')
                                 if draw(st.booleans())]
    if draw(gen.scalars(*[False]*11, True)):
        present.remove(draw(gen.scalars('x', 'y', 'z')))
    present += [e for e in ('id', 'wx', 'nz_alt') if draw(st.booleans())]
    case['cols'] = list(draw(st.permutations(present)))
    case['fmt'] = draw(gen.scalars(
        'no_header', 'no_header', 'no_header', 'header', 'text', 'csv',
        'fits', 'ecsv'))
    case['reader'] = draw(gen.scalars('astropy', 'astropy', 'Astropy',
                                      'nbodykit'))
    case['rename'] = draw(st.booleans())
    case['renamed'] = [c for c in present if draw(st.booleans())]
    case['sep'] = draw(gen.scalars(' ', ' ', '\t', ','))
    case['notes'] = draw(st.lists(st.tuples(
        st.integers(0, 9),
        gen.scalars('', '# comment', '#x y z')).map(list), max_size=3))
    case['ints'] = draw(st.booleans())
    case['aspath'] = draw(st.booleans())
    return case


def run_file(case):
    from astropy.table import Table
    from pathlib import Path
    from triumvirate.catalogue import ParticleCatalogue
    try:
        from triumvirate.catalogue import MissingValueError
    except ImportError:
        MissingValueError = Exception
    cols = case['cols']
    data = {c: np.array(case['data'].get(c, case['data']['wc']))
            for c in cols}
    if case['ints']:
        data = {c: np.clip(np.round(v), -2**31, 2**31) for c, v in
                data.items()}
    n = len(case['data']['x'])
    mapping = {}
    named = list(cols)
    if case['rename']:
        for i, c in enumerate(cols):
            if c in case['renamed'] and c in COLS:
                named[i] = 'COL_' + c.upper()
                mapping[c] = named[i]
    fmt = case['fmt']
    with scratch() as tmp:
        path = tmp / 'cat.dat'
        kw = {}
        if fmt in ('fits', 'ecsv'):
            t = Table({k: data[c] for k, c in zip(named, cols)})
            path = tmp / f'cat.{fmt}'
            t.write(path, format='fits' if fmt == 'fits' else 'ascii.ecsv')
            kw['format'] = 'fits' if fmt == 'fits' else 'ascii.ecsv'
        else:
            sep = ',' if fmt == 'csv' else case['sep']
            def num(v):
                return '%d' % v if case['ints'] else repr(float(v))
            lines = [sep.join(num(data[c][i]) for c in cols)
                     for i in range(n)]
            if fmt in ('header', 'text', 'csv'):
                lines.insert(0, sep.join(named))
            first = 1 if fmt in ('header', 'text', 'csv') else 0
            if fmt != 'csv':
                for at, note in case['notes']:
                    lines.insert(min(first + at, len(lines)), note)
            path.write_text('\n'.join(lines) + '\n')
            if fmt == 'no_header':
                kw['names'] = list(named)
                if sep != ' ':
                    kw['table_kwargs'] = {'delimiter': sep}
            else:
                kw['format'] = {'header': 'ascii', 'text': 'text',
                                'csv': 'ascii.csv'}[fmt]
                if fmt != 'csv' and sep != ' ':
                    kw['table_kwargs'] = {'delimiter': sep}
        if mapping:
            kw['name_mapping'] = dict(mapping)
        before = repr(kw)
        arg = path if case['aspath'] else str(path)

        def read():
            return quiet(ParticleCatalogue.read_from_file, arg,
                         reader=case['reader'], **kw)
        missing = [c for c in 'xyz' if c not in cols]
        if missing:
            expect_raises(MissingValueError, read,
                          f'file without column {missing}')
            return ok(True, 'missing coordinate')
        expect_raises(ValueError, lambda: ParticleCatalogue.read_from_file(
            arg, reader='pandas', **kw), 'unknown reader')
        cat, cats, texts = read()
        check(repr(kw) == before, f'arguments changed: {kw} from {before}')
        # a second reading with the same arguments gives the same catalogue
        again, _, _ = read()
    want = {}
    for c in COLS:
        want[c] = data[c] if c in cols else np.full(
            n, 0. if c == 'nz' else 1.)
    judge(cat, want, f'{fmt} file')
    judge(again, want, f'{fmt} file read again')
    for c in ('nz', 'ws', 'wc'):
        said = any(f"'{c}'" in m for k, m in zip(cats, texts)
                   if k == 'DefaultValueWarning')
        check(said == (c not in cols),
              f'default of {c}: warned {said}, column present {c in cols}')
    if case['reader'] == 'nbodykit':
        check('RuntimeWarning' in cats, 'no warning of the reader fallback')
    for e in cols:
        if e not in COLS:
            equal(np.asarray(cat[e], float), data[e], f'extra column {e}')
    return ok(cols != COLS, fmt, f'rename={bool(mapping)}',
              f'ints={case["ints"]}')


# -- the C++ catalogue ---------------------------------------------------------

@st.composite
def cpp_strategy(draw):
    case = {'data': table(draw)}
    present = ['x', 'y', 'z'] + [c for c in ('nz', 'ws', 'wc')
                                 if draw(st.booleans())]
    present += [e for e in ('id', 'wx', '') if draw(st.booleans())]
    case['cols'] = list(draw(st.permutations(present)))
    if case['cols'][-1] == '':
        case['cols'] = [''] + case['cols'][:-1]
    case['volume'] = draw(gen.scalars(0., 0., 1e3, 125.5))
    case['split'] = draw(st.integers(0, 8))
    case['notes'] = draw(st.lists(st.tuples(
        st.integers(0, 9), gen.scalars('', '# comment', '#1 2 3')
    ).map(list), max_size=3))
    case['pad'] = draw(gen.scalars('', '  ', '\t'))
    case['sep'] = draw(gen.scalars(' ', '\t', '   '))
    case['eof'] = draw(st.booleans())
    case['via'] = draw(gen.scalars('file', 'arrays'))
    return case


def run_cpp(case):
    data = {c: np.array(case['data'].get(c, case['data']['wc']))
            for c in case['cols']}
    n = len(case['data']['x'])
    cat = drv.Catalogue()
    if case['via'] == 'arrays':
        want = {c: np.array(case['data'][c]) for c in COLS}
        cat.load([want[c] for c in COLS])
    else:
        lines = [case['pad'] + case['sep'].join(
            repr(float(data[c][i])) for c in case['cols'])
            for i in range(n)]
        cut = case['split']
        parts = [lines[:cut], lines[cut:]] if 0 < cut < n else [lines]
        for at, note in case['notes']:
            parts[0].insert(min(at, len(parts[0])), note)
        with scratch() as tmp:
            names = []
            for i, part in enumerate(parts):
                p = tmp / f'part{i}.dat'
                p.write_text('\n'.join(part) + ('\n' if case['eof'] else ''))
                names.append(str(p))
            cat.read('::'.join(names), ','.join(case['cols']),
                     case['volume'])
        want = {}
        for c in COLS:
            if c in case['cols']:
                want[c] = data[c]
            elif c == 'nz':
                want[c] = np.full(n, n/case['volume'] if case['volume'] > 0
                                  else 0.)
            else:
                want[c] = np.ones(n)
    got = cat.data()
    attrs = cat.attrs()
    cat.close()
    check(len(got) == n, f'{len(got)} particles instead of {n}')
    for i, c in enumerate(COLS):
        equal(got[:, i], want[c], f'C++ column {c}')
    w = want['ws']*want['wc']
    equal(got[:, 6], w, 'C++ overall weight')
    close(attrs['wtotal'], np.sum(w), 'C++ wtotal', rtol=0,
          atol=1e-12*np.sum(np.abs(w)) + 1e-300)
    close(attrs['wstotal'], np.sum(want['ws']), 'C++ wstotal', rtol=0,
          atol=1e-12*np.sum(np.abs(want['ws'])) + 1e-300)
    pos = got[:, :3]
    equal(attrs['min'], pos.min(0), 'C++ minimum coordinates')
    equal(attrs['max'], pos.max(0), 'C++ maximum coordinates')
    close(attrs['span'], np.ptp(pos, axis=0), 'C++ spans', rtol=1e-12,
          atol=1e-300)
    return ok(n > 1, case['via'], f'parts={int(0 < case["split"] < n) + 1}')


# -- conversion for measurements --------------------------------------------

@st.composite
def convert_strategy(draw):
    return {'n': draw(st.integers(2, 12)), 'seed': draw(gen.seeds()),
            'dtypes': {c: draw(gen.scalars('float', 'int', 'float32',
                                           'int32', 'bool'))
                       for c in ('x', 'y', 'z', 'nz', 'ws', 'wc')}}


def run_convert(case):
    """Measured statistics depend on the values of columns, not their type."""
    import meas
    from triumvirate.catalogue import ParticleCatalogue
    from triumvirate.twopt import compute_powspec
    rng = np.random.RandomState(case['seed'])
    made = ('lin', 0.02, 0.2, 2, np.linspace(0.02, 0.2, 3))
    spec = {'boxsize': [100.]*3, 'ngrid': [6]*3, 'assignment': 'cic',
            'interlace': False}
    out = []
    cols = []
    for _ in range(2):
        c = {k: rng.randint(0, 100, case['n']) for k in 'xyz'}
        c.update(nz=rng.randint(1, 4, case['n']),
                 ws=rng.randint(0, 2, case['n']),
                 wc=rng.randint(1, 4, case['n']))
        c['ws'][0] = 1
        for k, t in case['dtypes'].items():
            t = {'float': float, 'int': np.int64, 'float32': np.float32,
                 'int32': np.int32, 'bool': np.bool_ if k not in 'xyz'
                 else np.int16}[t]
            c[k] = c[k].astype(t)
        cols.append(c)
    for cast in (False, True):
        cats = []
        for c in cols:
            if cast:
                c = {k: v.astype(float) for k, v in c.items()}
            cats.append(ParticleCatalogue(**c))
        params = gen.paramset(spec, 'powspec', 'survey', made, {'ELL': 0},
                              norm='particle')
        res = meas.call(compute_powspec, *cats, paramset=params)
        out.append(res)
    for k in ('keff', 'nmodes', 'pk_raw', 'pk_shot'):
        scale = np.max(np.abs(out[1]['pk_shot'])) \
            if k.startswith('pk') else 0.1
        close(np.asarray(out[0][k]), np.asarray(out[1][k]),
              f'{k} with column types {case["dtypes"]}', rtol=1e-4,
              scale=scale)
    return ok(any(t != 'float' for t in case['dtypes'].values()))


CHECKS = [
    Sub('arrays', arrays_strategy, run_arrays, quick=1500, thorough=100000,
        shards=3, rule='random columns of several types, defaults and '
        'updates; non-trivial with two or more particles'),
    Sub('file', file_strategy, run_file, quick=900, thorough=60000,
        shards=3, rule='random text, FITS and ECSV files; non-trivial if '
        'the columns are not exactly the six default ones in order'),
    Sub('cpp', cpp_strategy, run_cpp, quick=2500, thorough=150000,
        shards=1, rule='random arrays and text files into the C++ '
        'catalogue; non-trivial with two or more particles'),
    Sub('convert', convert_strategy, run_convert, quick=200, thorough=8000,
        shards=1, rule='column types; non-trivial if some column is not of '
        'double precision'),
]
