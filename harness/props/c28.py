"""C28: what a measurement or an object allocates is given back."""
import ctypes
import gc
import os
import re
import subprocess

import numpy as np
from hypothesis import strategies as st

import gen
from core import Sub, Violation, check, ok, prog_path, scratch, set_threads
from props import anystat, c19

TARGETS = ['py', 'prog']
ASSUMPTIONS = [
    'Memory in use is what the C library reports (mallinfo2: allocated '
    'chunks and mapped blocks of every arena); Python objects below 512 '
    'bytes are not seen by it.',
    'A leak makes memory in use grow in most of nine repetitions, and in '
    'three of four of 36 more, after two to warm up; what is kept once '
    '(plans, thread pools, caches) is no leak.',
]
LEAST = 24       # bytes: the smallest chunk


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in (
        'arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks',
        'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


LIBC = ctypes.CDLL(None)
LIBC.mallinfo2.restype = Mallinfo2


def in_use():
    gc.collect()
    info = LIBC.mallinfo2()
    return info.uordblks + info.hblkhd


def descriptors():
    return len(os.listdir('/proc/self/fd'))


def repeated(what, act, warm=2, runs=9):
    """Perform `act` again and again: nothing may pile up."""
    for _ in range(warm):
        act()
    files = descriptors()
    levels = [in_use()]

    def steps(n):
        del levels[:-1]
        for _ in range(n):
            act()
            levels.append(in_use())
        return sorted(b - a for a, b in zip(levels, levels[1:]))

    now = descriptors()
    grown = steps(runs)
    now = descriptors()
    check(now < files + runs, f'{what}: {now - files} descriptors left open '
          f'by {runs} repetitions')
    if grown[runs//2] >= LEAST:
        # again, to set slowly filling tables apart
        grown = steps(4*runs)
        if grown[runs] >= LEAST:
            raise Violation(
                f'{what}: memory in use grows by {grown[runs]} to '
                f'{grown[-1]} bytes in three of four repetitions')


# -- measurements ------------------------------------------------------------------------

@st.composite
def measure_strategy(draw):
    case = draw(anystat.cases(max_mesh=500))
    case['threads'] = draw(gen.scalars(1, 1, 2))
    case['fresh'] = draw(st.booleans())
    case['save'] = draw(gen.scalars(None, None, '.txt', '.npz', 'vectors'))
    case['fail'] = draw(gen.scalars(None, None, 'wigner', 'convention',
                                    'box', 'los'))
    return case


def run_measure(case):
    from triumvirate.parameters import ParameterSet
    set_threads(case['threads'])
    try:
        with scratch() as home:
            return _run_measure(case, home, ParameterSet)
    finally:
        set_threads(2)


def _run_measure(case, home, ParameterSet):
    data, rand = anystat.columns(case)
    made = anystat.edges(case)
    pars = anystat.params(case, made)
    pars['directories'] = {'catalogues': '', 'measurements': str(home/'out')}
    (home/'out').mkdir()
    three = anystat.points(case) == 3
    fail, kw = case['fail'], {}
    if fail in ('wigner', 'convention') and not three:
        fail = None
    if fail == 'box' and case['alignment'] == 'pad':
        fail = None
    if fail == 'los' and anystat.cattype(case) == 'sim':
        fail = None
    if fail == 'wigner':
        pars['degrees'] = dict(pars['degrees'], ell1=0, ell2=0, ELL=1)
    if fail == 'convention':
        pars['norm_convention'] = 'mesh-mixed'
    if case['save'] == 'vectors':
        pars['save_binned_vectors'] = str(home/'out'/'vectors.txt')
    elif case['save']:
        kw['save'] = case['save']
    made_cats = anystat.cats(case, data, rand)
    if fail == 'los':
        name = 'los_data' if anystat.cattype(case) == 'survey' else 'los_rand'
        kw[name] = np.ones((2, 4))
    if fail == 'box':
        # the catalogues do not fit in the box
        pars['boxsize'] = {k: v*1e-3 for k, v in pars['boxsize'].items()}
    box = {'cats': made_cats}
    raised = [0, 0]

    def act():
        raised[1] += 1
        try:
            if case['fresh'] or 'pars' not in box:
                box['pars'] = ParameterSet(param_dict=pars)
            if case['fresh']:
                box['cats'] = anystat.cats(case, data, rand)
            anystat.measure(case, data, rand, made, paramset=box['pars'],
                            catalogues=box['cats'], **kw)
        except Exception:
            if fail is None:
                raise
            raised[0] += 1

    repeated(case['stat'], act)
    check(raised[0] in (0, raised[1]) or fail == 'box',
          f"{case['stat']}: only {raised[0]} of {raised[1]} repetitions "
          f'raise ({fail})')
    return ok(True, case['stat'], f'threads={case["threads"]}',
              f'raises: {fail}' if raised[0] else 'returns',
              'fresh objects' if case['fresh'] else 'same objects',
              f'saved: {case["save"]}')


# -- objects -------------------------------------------------------------------------------

KINDS = ['catalogue', 'file', 'binning', 'parameters', 'printed', 'hankel',
         'double', 'vectors', 'norms', 'copies']


@st.composite
def object_strategy(draw):
    case = draw(anystat.cases(max_mesh=400))
    case['what'] = draw(gen.scalars(*KINDS))
    case['n'] = draw(st.one_of(st.integers(3, 9),
                               st.integers(2, 20).map(lambda n: 2*n)))
    case['bad'] = draw(st.booleans())
    case['extrap'] = draw(st.integers(0, 5))
    case['threaded'] = draw(st.booleans())
    case['ell'] = draw(st.integers(0, 4))
    return case


def action(case, home):
    from triumvirate import transforms
    from triumvirate.catalogue import ParticleCatalogue
    from triumvirate.dataobjs import Binning
    from triumvirate.fieldmesh import record_binned_vectors
    from triumvirate.parameters import ParameterSet
    data, rand = anystat.columns(case)
    made = anystat.edges(case)
    pars = anystat.params(case, made)
    what, bad = case['what'], case['bad']
    cols = data or rand
    grid = np.geomspace(1e-2, 10., case['n'])
    if what == 'catalogue':
        def act():
            cat = gen.catalogue(cols)
            cat.offset_coords([1., 2., 3.] if not bad else [1., 2.])
    elif what == 'file':
        text = '\n'.join(' '.join(map(repr, map(float, p)))
                         for p in cols['pos'])
        (home/'cat.txt').write_text(text + ('\n1 2' if bad else '') + '\n')

        def act():
            ParticleCatalogue.read_from_file(
                str(home/('cat.txt')), names=['x', 'y', 'z'])
    elif what == 'binning':
        one = ParameterSet(param_dict=pars)

        def act():
            b = Binning('fourier', 'lin', bin_min=.1, bin_max=.3,
                        num_bins=case['n'])
            Binning.from_parameter_set(one)
            b.set_bins(.05, .2, case['n'])
            b.set_custom_bins([.3, .2, .1] if bad else [.1, .2, .3])
    elif what == 'parameters':
        if bad:
            pars['form'] = 'none'
            pars['assignment'] = 'bad'

        def act():
            ParameterSet(param_dict=pars)['tags']
    elif what == 'printed':
        def act():
            ParameterSet(param_dict=pars).save(
                str(home/('no/such' if bad else '')/'p.yml'))
    elif what == 'copies':
        one = ParameterSet(param_dict=pars)

        def act():
            two = one
            for i in range(3):
                two['verbose'] = 20 + i
            if bad:
                two['form'] = 'bad'
    elif what == 'hankel':
        def act():
            t = transforms.SphericalBesselTransform(
                case['ell'], .5, grid[::-1] if bad else grid, lowring=True,
                extrap=case['extrap'], threaded=case['threaded'])
            t.transform(np.exp(-grid) + 0j)
    elif what == 'double':
        def act():
            t = transforms.DoubleSphericalBesselTransform(
                (case['ell'], 1), (0, 0), grid, lowring=True,
                extrap=case['extrap'], threaded=case['threaded'])
            m = np.exp(-grid[:, None] - grid)
            t.transform(m[:-1] if bad else m)
    elif what == 'vectors':
        space = anystat.space(case)
        binning = gen.make_binning(space, made)
        if bad:
            pars['boxsize'] = dict.fromkeys('xyz')

        def act():
            record_binned_vectors(binning, paramset=pars)
    else:
        from triumvirate import _threept, _twopt
        p = ParameterSet(param_dict=pars)
        cat = gen.catalogue(cols)
        cat.compute_los()

        def act():
            parts = cat._convert_to_cpp_catalogue()
            alpha = 0. if bad else .1
            for mod, name in ((_twopt, 'powspec'), (_threept, 'bispec')):
                getattr(mod, f'_calc_{name}_normalisation_from_particles')(
                    parts, alpha)
                getattr(mod, f'_calc_{name}_normalisation_from_mesh')(
                    parts, p, alpha)
    return act


def run_object(case):
    from meas import call
    raised = [0, 0]
    with scratch() as home:
        act = call(action, case, home)

        def once():
            raised[1] += 1
            try:
                call(act)
            except Exception:
                raised[0] += 1

        repeated(case['what'], once)
    check(raised[0] in (0, raised[1]), f"{case['what']}: {raised[0]} of "
          f'{raised[1]} repetitions raise')
    return ok(True, case['what'], 'raises' if raised[0] else 'returns')


# -- the program's own account -----------------------------------------------------------

def run_program(case):
    case['wisdom'] = ''
    case['verbose'] = 20
    case['env'] = [e for e in case['env'] if e != 'verbose']
    with scratch() as path:
        path = path.resolve()
        why, job = c19.prepare(case, path)
        if job is None:
            return ok(False, why)
        done = subprocess.run(
            [prog_path(), 'p.ini'], cwd=job['home'], capture_output=True,
            timeout=180, env=job['env'])
        text = (done.stdout + done.stderr).decode('utf-8', 'replace')
    found = re.search(r'Uncleared.*', text)
    check(not found, f"{case['stat']}: {found and found.group(0)}")
    return ok(done.returncode == 0, case['stat'])


CHECKS = [
    Sub('measurements', measure_strategy, run_measure, quick=60,
        thorough=4000, shards=8,
        rule='Every case repeats a measurement of one of the ten statistics '
        'at least eleven times, some of which raise errors.'),
    Sub('objects', object_strategy, run_object, quick=100, thorough=8000,
        shards=6,
        rule='Every case makes and drops an object, or fails to, at least '
        'eleven times.'),
    Sub('program', c19.strategy, run_program, quick=40, thorough=1500,
        shards=6, rule='The program completed the measurement.'),
]
