"""C13: binnings against a model of their schemes, over operation histories."""
import warnings

import numpy as np
from hypothesis import strategies as st

import gen
from core import Sub, Violation, check, close, equal, ok

TARGETS = ['py']
ASSUMPTIONS = [
    'Bin ranges span at least 1e-6 of their upper end (below that, floating '
    'point edges cannot stay distinct).',
    'Grid-based bins follow the existing test: they reach half a bin width '
    'beyond half the box size or the Nyquist wavenumber.',
]
SPACES = ['fourier', 'config']
SCHEMES = ['lin', 'log', 'linpad', 'logpad']
PAD = {'fourier': 1e-3, 'config': 10.}


def bounds():
    return st.tuples(
        st.one_of(gen.scalars(0., 0.005, 0.1, 1., 50.), st.floats(0, 200)),
        st.one_of(gen.scalars(1.01, 2., 20.), st.floats(1.000002, 1e4)),
        st.one_of(st.integers(2, 12), st.integers(6, 12), st.integers(1, 60)),
        gen.scalars(*['ok']*16, 'neg', 'zero', 'rev', 'same'))


def op():
    return st.one_of(
        st.fixed_dictionaries({'op': gen.scalars('set'),
                               'r': bounds().map(list)}),
        st.fixed_dictionaries({'op': gen.scalars('scheme'),
                               'v': gen.scalars(*SCHEMES)}),
        st.fixed_dictionaries({
            'op': gen.scalars('grid'),
            'box': st.one_of(st.floats(1, 5000), st.lists(
                st.floats(1, 5000), min_size=3, max_size=3)),
            'n': st.one_of(st.integers(2, 64), st.lists(
                st.integers(2, 64), min_size=3, max_size=3))}),
        st.fixed_dictionaries({
            'op': gen.scalars('custom'),
            'steps': st.lists(st.floats(1e-3, 10), min_size=1, max_size=12),
            'lo': gen.scalars(0., 0.3, 7.),
            'as': gen.scalars('array', 'list', 'tuple', 'int', 'single')}),
        st.fixed_dictionaries({'op': gen.scalars('param'),
                               'scheme': gen.scalars(*SCHEMES),
                               'space': gen.scalars(*SPACES),
                               'r': bounds().map(list)}),
    )


@st.composite
def strategy(draw):
    return {'space': draw(gen.scalars(*SPACES)),
            'scheme': draw(gen.scalars(*SCHEMES)),
            'init': draw(st.one_of(st.none(), bounds().map(list))),
            'ops': draw(st.lists(op(), min_size=1, max_size=8))}


def resolve(r, space):
    """(min, max, n) of a range, with the illegal variants."""
    lo, ratio, n, kind = r
    scale = 10. if space == 'config' else 1e-3
    lo = round(lo, 4)*scale
    hi = lo*ratio if lo > 0 else ratio*scale
    if kind == 'neg':
        lo = -abs(lo) - 1e-3
    elif kind == 'zero':
        n = -n if n % 2 else 0
    elif kind == 'rev':
        lo, hi = hi, lo
    elif kind == 'same':
        hi = lo
    return lo, hi, n


def model(space, scheme, lo, hi, n):
    """Edges, or None when the request is illegal."""
    if n <= 0 or lo < 0 or not hi > lo:
        return None
    pad = 5*PAD[space]
    if scheme in ('linpad', 'logpad'):
        if n <= 5 or not hi > pad:
            return None
        head = PAD[space]*np.arange(5)
        m = n - 5
        if scheme == 'linpad':
            tail = pad + (hi - pad)*np.arange(m + 1)/m
        else:
            tail = pad*(hi/pad)**(np.arange(m + 1)/m)
        return np.concatenate([head, tail])
    if scheme == 'lin':
        return lo + (hi - lo)*np.arange(n + 1)/n
    if scheme == 'log':
        if lo == 0:
            return None
        return lo*(hi/lo)**(np.arange(n + 1)/n)
    return None


def verify(b, m, what):
    edges = np.asarray(b.bin_edges, float)
    n = m['n']
    check(b.num_bins == n, f'{what}: num_bins {b.num_bins}, not {n}')
    check(len(edges) == n + 1,
          f'{what}: {len(edges)} edges for {n} bins')
    # single-precision custom edges keep the precision of their type
    tol = (1e-6 if m.get('single') else 1e-11)*np.abs(m['edges']).max()
    close(edges, m['edges'], f'{what}: edges', rtol=1e-11, atol=tol)
    tight = np.min(np.diff(m['edges'])) < 1e3*tol
    check(tight or np.all(np.diff(edges) > 0),
          f'{what}: edges not increasing')
    check(float(b.bin_min) == m['lo'] and float(b.bin_max) == m['hi'],
          f'{what}: range ({b.bin_min}, {b.bin_max}), '
          f"not ({m['lo']}, {m['hi']})")
    check(edges[-1] == m['hi'] or m.get('loose'),
          f'{what}: last edge {edges[-1]!r} instead of {m["hi"]!r}')
    first = 0. if m['scheme'].endswith('pad') else m['lo']
    check(edges[0] == first, f'{what}: first edge {edges[0]!r}, '
          f'not {first!r}')
    c, w = np.asarray(b.bin_centres, float), np.asarray(b.bin_widths, float)
    check(len(c) == n and len(w) == n,
          f'{what}: {len(c)} centres and {len(w)} widths')
    close(c, (edges[1:] + edges[:-1])/2, f'{what}: centres', rtol=1e-11,
          atol=tol)
    close(w, np.diff(edges), f'{what}: widths', rtol=1e-9, atol=4*tol)
    check(b.scheme == m['scheme'], f'{what}: scheme {b.scheme!r}, not '
          f"{m['scheme']!r}")
    check(b.space == m['space'], f'{what}: space {b.space!r}')


def snapshot(b):
    return (b.space, b.scheme, b.bin_min, b.bin_max, b.num_bins,
            list(b.bin_edges), list(b.bin_centres), list(b.bin_widths))


def attempt(func, legal, what):
    try:
        res = func()
    except Exception as exc:
        if legal:
            raise Violation(f'{what}: rejected with {type(exc).__name__}: '
                            f'{exc}') from exc
        return None
    if not legal:
        raise Violation(f'{what}: accepted')
    return res


def paramset(scheme, space, lo, hi, n):
    from triumvirate.parameters import ParameterSet, fetch_paramset_template
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = fetch_paramset_template('dict')
    p.update(statistic_type='powspec' if space == 'fourier' else '2pcf',
             catalogue_type='sim', binning=scheme, range=[lo, hi],
             num_bins=n, verbose=60,
             degrees={'ell1': 0, 'ell2': 0, 'ELL': 0},
             boxsize={'x': 100., 'y': 100., 'z': 100.},
             ngrid={'x': 8, 'y': 8, 'z': 8})
    return ParameterSet(param_dict=p)


def vectors(b):
    """What the C++ side of a binning holds: the mesh vectors it records."""
    from triumvirate.fieldmesh import record_binned_vectors
    # a mesh on the scale of the bins
    hi = float(b.bin_max)
    box = 6*hi if b.space == 'config' else 12*np.pi/hi
    rec = record_binned_vectors(b, paramset=VEC['p'], boxsize=box, ngrid=6)
    return np.sort(rec, order=list(rec.dtype.names))


VEC = {}


def run(case):
    from triumvirate.dataobjs import Binning
    import meas
    if not VEC:
        VEC['p'] = meas.call(paramset, 'lin', 'fourier', 0.01, 0.1, 3)
    space, scheme = case['space'], case['scheme']
    m = None
    if case['init'] is None:
        b = Binning(space, scheme)
    else:
        lo, hi, n = resolve(case['init'], space)
        edges = model(space, scheme, lo, hi, n)
        b = attempt(lambda: Binning(space, scheme, bin_min=lo, bin_max=hi,
                                    num_bins=n),
                    edges is not None, f'Binning({space}, {scheme}, {lo}, '
                    f'{hi}, {n})')
        if b is None:
            return ok(False, 'rejected at construction')
        m = dict(lo=lo, hi=hi, n=n, edges=edges, scheme=scheme, space=space)
        verify(b, m, 'new binning')
    seen = set()
    cur_scheme, cur_space = scheme, space
    for step, o in enumerate(case['ops']):
        what = f"step {step} {o['op']}"
        seen.add(o['op'])
        if o['op'] == 'set':
            lo, hi, n = resolve(o['r'], cur_space)
            edges = model(cur_space, cur_scheme, lo, hi, n)
            before = snapshot(b)
            vec = meas.call(vectors, b) if m is not None \
                and edges is None and m['space'] == cur_space else None
            attempt(lambda: b.set_bins(lo, hi, n), edges is not None,
                    f'{what} ({lo}, {hi}, {n}) in scheme {cur_scheme}')
            if edges is None:
                check(snapshot(b) == before,
                      f'{what}: rejected bins changed the binning')
                if vec is not None:
                    equal(meas.call(vectors, b), vec,
                          f'{what}: rejected bins changed the binning used')
                continue
            m = dict(lo=lo, hi=hi, n=n, edges=edges, scheme=cur_scheme,
                     space=cur_space)
        elif o['op'] == 'scheme':
            b.scheme = cur_scheme = o['v']
            continue
        elif o['op'] == 'grid':
            b.set_grid_based_bins(o['box'], o['n'])
            box, n = np.max(o['box']), int(np.min(o['n']))
            if cur_space == 'config':
                w, hi = box/n, box/2
            else:
                w, hi = 2*np.pi/box, np.pi*n/box
            hi += w/2
            close(float(b.bin_max), hi, f'{what}: bin_max', rtol=1e-12)
            hi = float(b.bin_max)
            cur_scheme = 'lin'
            m = dict(lo=0., hi=hi, n=n//2, scheme='lin', space=cur_space,
                     edges=hi*np.arange(n//2 + 1)/(n//2))
        elif o['op'] == 'custom':
            edges = o['lo'] + np.concatenate([[0.], np.cumsum(o['steps'])])
            if o['as'] == 'int':
                edges = np.unique(np.ceil(edges)).astype(int)
                if len(edges) < 2:
                    edges = np.array([0, 3])
            elif o['as'] == 'single':
                edges = np.unique(edges.astype(np.float32))
                if len(edges) < 2:
                    continue
            given = edges.copy()
            arg = {'list': edges.tolist(), 'tuple': tuple(edges.tolist())
                   }.get(o['as'], edges)
            b.set_custom_bins(arg)
            equal(edges, given, f'{what}: argument changed')
            edges = given.astype(float)
            if o['as'] not in ('list', 'tuple'):
                # the caller's array is not the binning's
                arg += 1
            cur_scheme = 'custom'
            m = dict(lo=edges[0], hi=edges[-1], n=len(edges) - 1,
                     edges=edges, single=o['as'] == 'single', scheme='custom', space=cur_space)
        else:
            lo, hi, n = resolve(o['r'], o['space'])
            edges = model(o['space'], o['scheme'], lo, hi, n)
            if edges is None or n < (7 if 'pad' in o['scheme'] else 2):
                continue
            # beyond the mesh scale of the parameters: only a warning
            p = meas.call(paramset, o['scheme'], o['space'], lo, hi, n)
            b = Binning.from_parameter_set(p)
            direct = Binning(o['space'], o['scheme'], lo, hi, n)
            check(snapshot(b) == snapshot(direct),
                  f'{what}: {snapshot(b)} from parameters, '
                  f'{snapshot(direct)} directly')
            cur_scheme, cur_space = o['scheme'], o['space']
            m = dict(lo=lo, hi=hi, n=n, edges=edges, scheme=cur_scheme,
                     space=cur_space)
        verify(b, m, what)
    if m is None:
        return ok(False, 'never set')
    # the binning used by measurements is the one shown, whatever the path
    fresh = Binning(m['space'], 'lin')
    fresh.set_custom_bins(np.asarray(b.bin_edges, float))
    if cur_space == m['space'] and m['hi'] > 1e-6:
        equal(meas.call(vectors, b), meas.call(vectors, fresh),
              'vectors recorded with the binning and with its edges')
    return ok(len(seen) > 1 or case['init'] is not None, *sorted(seen),
              m['scheme'])


CHECKS = [
    Sub('history', strategy, run, quick=4000, thorough=400000, shards=8,
        rule='random sequences of binning operations, legal and illegal; '
             'non-trivial if the bins were set by at least two operations'),
]
