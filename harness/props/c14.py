"""C14: recorded binned vectors against enumeration of the mesh vectors."""
import subprocess

import numpy as np
from hypothesis import strategies as st

import gen
import meas
import refmodel as rm
from core import (Sub, Violation, check, close, ok, prog_path, scratch,
                  set_threads)

TARGETS = ['py', 'prog']
ASSUMPTIONS = [
    'Even mesh grid numbers, as the documentation asks for.',
    'Generated bin edges keep 1e-9 (relative) away from the lengths of mesh '
    'vectors, except in the sub-check of exact edges, whose lengths are '
    'exactly representable.',
]
NAMES = ['index', 'lower_edge', 'upper_edge', 'vecx', 'vecy', 'vecz']


def expected(mesh, space, edges):
    """Rows (bin, vx, vy, vz), sorted."""
    vec = mesh.kvec if space == 'fourier' else mesh.rvec
    mag = mesh.k if space == 'fourier' else mesh.r
    flat = vec.reshape(3, -1).T
    mag = mag.ravel()
    rows = []
    for i in range(len(edges) - 1):
        sel = (mag >= edges[i]) & (mag < edges[i + 1])
        rows += [(i, *v) for v in flat[sel]]
    return np.array(rows).reshape(-1, 4)


def canon(rows):
    """Rows in a canonical order, robust to rounding."""
    if len(rows) == 0:
        return rows
    scale = np.abs(rows).max() or 1.
    key = np.round(rows/scale*1e7).astype(np.int64)
    return rows[np.lexsort(key.T[::-1])]


def compare(index, lower, upper, vecs, mesh, space, edges, what, rtol):
    ref = expected(mesh, space, edges)
    index = np.asarray(index)
    check(np.array_equal(index, np.sort(index)), f'{what}: not in bin order')
    check(len(index) == len(ref), f'{what}: {len(index)} vectors in the '
          f'bins, {len(ref)} mesh vectors have lengths in them')
    close(lower, np.asarray(edges)[index], f'{what}: lower edges', rtol=rtol)
    close(upper, np.asarray(edges)[index + 1], f'{what}: upper edges',
          rtol=rtol)
    got = np.column_stack([index, vecs])
    big = np.abs(ref[:, 1:]).max() if len(ref) else 1.
    close(canon(got), canon(ref), f'{what}: vectors', rtol=rtol,
          scale=max(big, 1e-300))
    return ref


@st.composite
def vec_strategy(draw):
    case = draw(gen.boxes(max_mesh=4000, nmin=2, nmax=16))
    case['space'] = draw(gen.scalars('fourier', 'config'))
    case['scheme'] = draw(gen.scalars('lin', 'log', 'linpad', 'logpad',
                                      'custom', 'exact'))
    case['lo'] = draw(st.one_of(gen.scalars(0., 0.5, 1.), st.floats(0, 3)))
    case['width'] = draw(st.one_of(gen.scalars(1., 5., 20.),
                                   st.floats(0.05, 30)))
    case['n'] = draw(st.integers(2, 12))
    case['cuts'] = draw(st.lists(st.integers(0, 300), min_size=2, max_size=8,
                                 unique=True))
    case['how'] = draw(gen.scalars('params', 'args', 'scalar',
                                   'override'))
    case['threads'] = draw(gen.scalars(1, 1, 2, 4, 7))
    if case['scheme'] == 'exact':
        case['space'] = 'config'
        case['boxsize'] = [n*draw(gen.scalars(2., 4., 16.))
                           for n in case['ngrid']]
    if case['how'] == 'scalar':
        case['boxsize'] = [case['boxsize'][0]]*3
        case['ngrid'] = [case['ngrid'][0]]*3
        if case['scheme'] == 'exact':
            case['boxsize'] = [4.*case['ngrid'][0]]*3
    return case


def binning(case, mesh):
    from triumvirate.dataobjs import Binning
    space = case['space']
    scales = mesh.k if space == 'fourier' else mesh.r
    unit = 2*np.pi/mesh.L.max() if space == 'fourier' else \
        (mesh.L/mesh.N).max()
    dist = np.unique(scales.ravel())
    scheme = case['scheme']
    if scheme in ('custom', 'exact'):
        if scheme == 'exact':
            pts = dist
        else:
            gaps = np.flatnonzero(np.diff(dist) > 1e-6*dist[1:])
            pts = np.concatenate([
                [0.], (dist[gaps] + dist[gaps + 1])/2, [dist[-1]*1.5]])
        cut = sorted(set(c % len(pts) for c in case['cuts']))
        if len(cut) < 2:
            cut = [0, len(pts) - 1]
        b = Binning(space, 'lin')
        b.set_custom_bins(pts[cut])
        return b, pts[cut]
    n = case['n'] + (7 if 'pad' in scheme else 0)
    lo = case['lo']*unit
    if scheme == 'log':
        lo = max(lo, 0.3*unit)
    for i in range(200):
        f = 1 - 0.3*((i*0.6180339887) % 1.)
        low, top = lo*f, (lo + case['width']*unit)*f
        if 'pad' in scheme:
            low += 0.013*unit*(1 - f)
            top = max(top, low + (75. if space == 'config' else 7.5e-3)*f)
        b = Binning(space, scheme, bin_min=low, bin_max=top, num_bins=n)
        edges = np.array(b.bin_edges)
        # whole-numbered padding edges may equal whole-numbered separations
        near = edges[(edges > 0) & (edges != np.round(edges))]
        if near.size == 0 or np.min(np.abs(near[:, None] - dist[None])/near[:, None]) > 1e-9:
            return b, edges
    raise Violation('no safe edges')


def run_vec(case):
    from triumvirate.fieldmesh import record_binned_vectors
    from triumvirate.parameters import ParameterSet
    mesh = rm.Mesh(case['boxsize'], case['ngrid'])
    b, edges = binning(case, mesh)
    how = case['how']
    kw = {}
    p = gen.param_dict(
        dict(case, assignment='tsc', interlace=False),
        'powspec' if case['space'] == 'fourier' else '2pcf', 'sim',
        ('lin', 0.1, 1., 2, None), {'ELL': 0})
    if how == 'params':
        kw['paramset'] = ParameterSet(param_dict=p)
    elif how == 'args':
        kw = dict(boxsize=case['boxsize'], ngrid=case['ngrid'])
    elif how == 'scalar':
        kw = dict(boxsize=case['boxsize'][0], ngrid=case['ngrid'][0])
    else:
        p['boxsize'] = dict(zip('xyz', [77.7, 50., 1e3]))
        p['ngrid'] = dict(zip('xyz', [2, 4, 6]))
        kw = dict(paramset=ParameterSet(param_dict=p),
                  boxsize=case['boxsize'], ngrid=case['ngrid'])
    set_threads(case['threads'])
    try:
        res = meas.call(record_binned_vectors, b, **kw)
    finally:
        set_threads(2)
    check(list(res.dtype.names) == NAMES, f'fields {res.dtype.names}')
    ref = compare(res['index'], res['lower_edge'], res['upper_edge'],
                  np.column_stack([res[n] for n in NAMES[3:]]), mesh,
                  case['space'], edges, f"{case['space']} {case['scheme']}",
                  1e-12)
    return ok(len(ref) > 0, case['space'], case['scheme'], how)


# -- against measurements -----------------------------------------------------

@st.composite
def count_strategy(draw):
    case = draw(gen.boxes(max_mesh=1000, nmin=4, nmax=12))
    case.update(assignment='cic', interlace=False)
    case['space'] = draw(gen.scalars('fourier', 'config'))
    case['npt'] = draw(gen.scalars(2, 3))
    case['bins'] = draw(gen.binnings(nbins=4))
    case['seed'] = draw(gen.seeds())
    if case['space'] == 'config' and draw(st.booleans()):
        case = draw(gen.whole(case))
    return case


def run_count(case):
    import importlib
    from triumvirate.fieldmesh import record_binned_vectors
    from triumvirate.parameters import ParameterSet
    mesh = rm.Mesh(case['boxsize'], case['ngrid'])
    fourier = case['space'] == 'fourier'
    if fourier:
        limit = None if case['npt'] == 2 else np.pi*(mesh.N/mesh.L).min()
        made = gen.make_edges(case['bins'], mesh.k, 2*np.pi/mesh.L.max(),
                              2e-5, limit)
    else:
        made = gen.make_edges(
            case['bins'], mesh.r, (mesh.L/mesh.N).max(),
            1e-3 if case['npt'] == 3 else 0.1001,
            quantum=1. if case['npt'] == 3 else None)
    stat = {2: ['2pcf', 'powspec'], 3: ['3pcf', 'bispec']}[case['npt']][
        fourier]
    deg = {'ELL': 0} if case['npt'] == 2 else {'ell1': 0, 'ell2': 0, 'ELL': 0}
    p = gen.param_dict(case, stat, 'sim', made, deg, norm='none')
    name = {'powspec': 'compute_powspec_in_gpp_box',
            '2pcf': 'compute_corrfunc_in_gpp_box',
            'bispec': 'compute_bispec_in_gpp_box',
            '3pcf': 'compute_3pcf_in_gpp_box'}[stat]
    mod = importlib.import_module(
        'triumvirate.' + {2: 'twopt', 3: 'threept'}[case['npt']])
    rng = np.random.RandomState(case['seed'])
    cat = gen.catalogue(dict(pos=rng.random_sample((5, 3))*mesh.L))
    kw = {}
    b = gen.make_binning(case['space'], made)
    if made[0] == 'custom':
        kw['binning'] = b
    res = meas.call(getattr(mod, name), cat,
                    paramset=ParameterSet(param_dict=p), **kw)
    vec = meas.call(record_binned_vectors, b, boxsize=case['boxsize'],
                    ngrid=case['ngrid'])
    mag = np.sqrt(vec['vecx']**2 + vec['vecy']**2 + vec['vecz']**2)
    keys = (('nmodes', 'keff') if fourier else ('npairs', 'reff'))
    if case['npt'] == 3:
        s = 'k1_eff' if fourier else 'r1_eff'
        keys = (keys[0] + '_1', s)
    filled = 0
    for i in range(made[3]):
        sel = vec['index'] == i
        n = int(sel.sum())
        check(n == int(res[keys[0]][i]), f'{stat}: bin {i} holds {n} '
              f'recorded vectors but {res[keys[0]][i]} {keys[0]}')
        if n:
            filled += 1
            close(res[keys[1]][i], mag[sel].mean(), f'{stat}: {keys[1]} of '
                  f'bin {i} against the recorded vectors', rtol=1e-9)
    return ok(filled > 0, stat)


# -- files of the program -------------------------------------------------------

@st.composite
def prog_strategy(draw):
    case = draw(gen.boxes(max_mesh=600, nmin=4, nmax=10))
    case['space'] = draw(gen.scalars('fourier', 'config'))
    case['bins'] = draw(gen.binnings(nbins=4))
    case['save'] = draw(gen.scalars('', 'true', 'false', 'vectors.txt'))
    case['tag'] = draw(gen.scalars('', '_a.b'))
    case['threads'] = draw(gen.scalars(1, 3))
    return case


def run_prog(case):
    mesh = rm.Mesh(case['boxsize'], case['ngrid'])
    fourier = case['space'] == 'fourier'
    spec = dict(case['bins'])
    if spec['kind'] == 'custom':
        spec['kind'] = 'lin'
    if fourier:
        made = gen.make_edges(spec, mesh.k, 2*np.pi/mesh.L.max(), 2e-5)
    else:
        made = gen.make_edges(spec, mesh.r, (mesh.L/mesh.N).max(), 1e-3)
    if made[0] == 'custom':
        return ok(False, 'custom')
    with scratch() as path:
        lines = ['measurement_dir = out', 'catalogue_type = none',
                 f"statistic_type = {'modes' if fourier else 'pairs'}",
                 'ELL = 0', f'binning = {made[0]}', f'bin_min = {made[1]!r}',
                 f'bin_max = {made[2]!r}', f'num_bins = {made[3]}',
                 'verbose = 50']
        for i, ax in enumerate('xyz'):
            lines += [f'boxsize_{ax} = {case["boxsize"][i]!r}',
                      f'ngrid_{ax} = {case["ngrid"][i]}']
        if case['tag']:
            lines.append(f"output_tag = {case['tag']}")
        if case['save']:
            lines.append(f"save_binned_vectors = {case['save']}")
        (path/'p.ini').write_text('\n'.join(lines) + '\n')
        import os
        done = subprocess.run(
            [prog_path(), 'p.ini'], capture_output=True, text=True,
            timeout=120, env=dict(os.environ,
                                  OMP_NUM_THREADS=str(case['threads'])))
        check(done.returncode == 0, f'program exited with '
              f'{done.returncode}: {(done.stdout + done.stderr)[-400:]}')
        name = case['save'] if case['save'] == 'vectors.txt' else \
            'binned_vectors' + case['tag']
        files = sorted(f.name for f in (path/'out').iterdir())
        check(name in files, f'no file {name!r} among {files}')
        text = (path/'out'/name).read_text()
    head = [ln for ln in text.splitlines() if ln.startswith('#')]
    table = np.array([[float(v) for v in ln.split()] for ln in
                      text.splitlines() if ln and not ln.startswith('#')])
    table = table.reshape(-1, 6)
    ref = compare(table[:, 0].astype(int), table[:, 1], table[:, 2],
                  table[:, 3:], mesh, case['space'], made[4],
                  'vectors saved by the program', 2e-9)
    want = [f'Vector count: {len(ref)}', f'Bin number: {made[3]}',
            'Mesh number: [' + ', '.join(map(str, case['ngrid'])) + ']',
            'Box size: [' + ', '.join(f'{v:.3f}' for v in case['boxsize'])
            + ']']
    for w in want:
        check(any(w in ln for ln in head), f'header has no {w!r}: {head}')
    return ok(len(ref) > 0, case['space'], case['save'])


CHECKS = [
    Sub('vectors', vec_strategy, run_vec, quick=4000, thorough=200000,
        shards=4, rule='random boxes, grids, spaces, schemes, ways of giving '
        'the mesh, thread counts; non-trivial with vectors in bins'),
    Sub('counts', count_strategy, run_count, quick=900, thorough=40000,
        shards=2, rule='mode and pair counts and effective coordinates of '
        'four box statistics; non-trivial with a filled bin'),
    Sub('program', prog_strategy, run_prog, quick=300, thorough=10000,
        shards=2, rule='modes and pairs runs of the program; non-trivial '
        'with vectors in bins'),
]
