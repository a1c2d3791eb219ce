"""C17: repeatability, calling styles and side effects of measurements."""
import copy
import logging
import math
import os
import re
import subprocess
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

import gen
import meas
import refmodel as rm
from core import (Sub, Violation, check, equal, expect_raises, ok, prog_path,
                  scratch, set_threads)
from props import anystat, c11, c19

TARGETS = ['py', 'tsan']
ASSUMPTIONS = [
    'Races are sought in the program, whose measurement code is that of the '
    'library; FFTW and GSL themselves are not instrumented.',
    'Lines of sight left out are computed from the catalogue as it is at the '
    'call; measurements place catalogues in place, so that a second call '
    'without lines of sight is a different request.',
    'Catalogues that have been placed by a measurement are only reused with '
    'continuous mesh assignment kernels (a rounding of positions is not '
    'amplified).',
]
LOGGERS = ['none', 'plain', 'package', 'package-debug']


# -- loggers ------------------------------------------------------------------

class Collect(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.bad = []

    def emit(self, record):
        try:
            record.getMessage()
        except Exception as exc:
            self.bad.append(f'{record.msg!r} % {record.args!r}: {exc}')


class Logger:
    """A logger of the given kind, with the global state restored."""

    def __init__(self, kind):
        self.kind = kind
        self.logger = None

    def __enter__(self):
        root = logging.getLogger()
        self.saved = (list(root.handlers), root.level, warnings.formatwarning)
        self.col = Collect()
        if self.kind == 'plain':
            self.logger = logging.Logger('verif', 1)
            self.logger.addHandler(self.col)
        elif self.kind.startswith('package'):
            from triumvirate.logger import setup_logger
            self.logger = setup_logger(1 if 'debug' in self.kind else 15)
            root.addHandler(self.col)
            for h in root.handlers:
                if isinstance(h, logging.StreamHandler):
                    h.setStream(open(os.devnull, 'w'))
        return self

    def __exit__(self, *exc):
        root = logging.getLogger()
        if self.kind.startswith('package'):
            for h in root.handlers:
                if isinstance(h, logging.StreamHandler):
                    h.stream.close()
            root.handlers[:] = self.saved[0]
            root.setLevel(self.saved[1])
            logging.captureWarnings(False)
            warnings.formatwarning = self.saved[2]
        if exc[0] is None:
            check(not self.col.bad, f'malformed log message: {self.col.bad}')


# -- histories ----------------------------------------------------------------

@st.composite
def step(draw):
    return {'which': draw(st.integers(0, 2)),
            'logger': draw(gen.scalars(*LOGGERS)),
            'verbose': draw(gen.scalars(0, 20, 60)),
            'progbar': draw(gen.scalars(True, False, 30., 0.5)),
            'threads': draw(gen.scalars(1, 1, 2, 3, 8)),
            'fftw': draw(gen.scalars('estimate', 'estimate', 'measure',
                                     'patient')),
            'save': draw(gen.scalars(False, False, False, '.txt', '.npz')),
            'cats': draw(gen.scalars('fresh', 'shared')),
            'pset': draw(gen.scalars('fresh', 'shared', 'dict-again'))}


@st.composite
def strategy(draw):
    n = draw(st.integers(1, 3))
    return {'cases': [draw(anystat.cases(
        norms=('none', 'particle', 'mesh', 'mesh-mixed'), nd=15, nr=25,
        max_mesh=500)) for _ in range(n)],
        'steps': draw(st.lists(step(), min_size=2, max_size=6))}


def run(case):
    jobs = []
    for c in case['cases']:
        if c['norm'] == 'mesh-mixed' and c['stat'] not in (
                'powspec-survey', '2pcf-survey'):
            c['norm'] = 'mesh'
        data, rand = anystat.columns(c)
        made = anystat.edges(c)
        jobs.append(dict(c=c, data=data, rand=rand, made=made, pset=None,
                         cats=None))
    from triumvirate.parameters import ParameterSet
    labels = set()
    try:
        for j in jobs:
            set_threads(1)
            try:
                j['ref'] = anystat.measure(j['c'], j['data'], j['rand'],
                                           j['made'])
            except (ValueError, RuntimeError):
                # undefined mixed-mesh normalisation
                if j['c']['norm'] != 'mesh-mixed':
                    raise
                return ok(False, 'undefined-norm')
            labels |= {j['c']['stat']}
        for s in case['steps']:
            j = jobs[s['which'] % len(jobs)]
            c = j['c']
            set_threads(s['threads'])
            p = anystat.params(c, j['made'], verbose=s['verbose'],
                               progbar=s['progbar'])
            p['fftw_scheme'] = s['fftw']
            p['tags'] = {'output': '_t'}
            p['directories'] = {'catalogues': '', 'measurements': ''}
            given = copy.deepcopy(p)
            if s['pset'] == 'shared' and j['pset'] is not None:
                pset = j['pset']
                meas.call(pset.update, fftw_scheme=s['fftw'],
                          verbose=s['verbose'], progbar=s['progbar'])
            else:
                pset = meas.call(ParameterSet, param_dict=p)
            j['pset'] = pset
            shared = s['cats'] == 'shared' and c['assignment'] != 'ngp'
            cats = j['cats'] if shared and j['cats'] else anystat.cats(
                c, j['data'], j['rand'])
            if shared:
                j['cats'] = cats
            los = anystat.los_args(c, j['data'], j['rand'])
            if shared and not los and anystat.cattype(c) != 'sim':
                # the lines of sight of the catalogues before placement
                if 'los' not in j:
                    j['los'] = [gen.unit(x['pos']) for x in (
                        j['data'], j['rand']) if x is not None]
                names = ['los_data', 'los_rand'][-len(j['los']):]
                los = dict(zip(names, (v.copy() for v in j['los'])))
            los_before = copy.deepcopy(los)
            before = [{k: np.array(x[k]) for k in ('nz', 'ws', 'wc')}
                      for x in cats]
            with scratch() as path, Logger(s['logger']) as log:
                got = anystat.measure(
                    c, j['data'], j['rand'], j['made'], paramset=pset,
                    catalogues=cats, los=False, save=s['save'],
                    logger=log.logger, **los)
                files = sorted(x.name for x in path.iterdir())
            sys.stdout.flush()
            what = f"{c['stat']} repeated after other measurements ({s})"
            got = {k: v for k, v in got.items() if k != 'header'}
            c11.compare(c, j['ref'], got, 1., j['data'], j['rand'], what)
            if s['save']:
                check(len(files) == 1, f'saving wrote {files}')
            else:
                check(not files, f'measuring without saving wrote {files}')
            check(p == given, 'the parameter mapping was altered')
            for k in los:
                equal(los[k], los_before[k], f'argument {k} was altered')
            for a, x in zip(before, cats):
                for k in a:
                    if k == 'nz' and anystat.cattype(c) == 'sim' \
                            and not a[k].any():
                        # a missing mean density is inserted
                        a[k] = np.full(len(a[k]), len(a[k])/np.prod(
                            c['boxsize']))
                        c11.close(np.array(x[k]), a[k], 'mean density',
                                  rtol=1e-12)
                        continue
                    equal(np.array(x[k]), a[k], f'column {k} was altered')
            labels |= {s['logger'], f"save={s['save']}", 'cats=' + (
                'shared' if shared else 'fresh')}
    finally:
        set_threads(2)
    return ok(True, *sorted(labels))


# -- calling styles -------------------------------------------------------------

@st.composite
def style_strategy(draw):
    case = draw(anystat.cases(nd=15, nr=25, max_mesh=500))
    case['other'] = draw(anystat.cases(
        stats=[case['stat']], nd=3, nr=3, max_mesh=500))
    case['over'] = draw(gen.scalars(
        'degree', 'binning', 'sampling', 'form', 'wa', 'all', 'all', 'nothing',
        'degree+binning', 'sampling+binning', 'degree+form', 'everything',
        'everything'))
    case['how'] = draw(gen.scalars('list', 'tuple', 'array', 'str'))
    case['types'] = draw(gen.scalars(None, None, *sorted(anystat.STATS)))
    case['upper'] = draw(st.booleans())
    case['logger'] = draw(gen.scalars(*LOGGERS))
    return case


def sampling_of(case, how):
    conv = {'list': list, 'tuple': tuple, 'array': np.array,
            'str': list}[how]
    out = {'boxsize': conv(case['boxsize']), 'ngrid': conv(case['ngrid']),
           'assignment': case['assignment'], 'interlace': case['interlace'],
           'alignment': case['alignment']}
    if how == 'array':
        out['boxsize'] = np.array(case['boxsize'], dtype=float)
    if case['alignment'] == 'pad':
        key = 'boxpad' if case['padscale'] == 'box' else 'gridpad'
        out[key] = case['padfactor']
    return out


def run_style(case):
    from triumvirate.parameters import ParameterSet
    three = anystat.points(case) == 3
    over = case['over']
    if over == 'all':
        case['norm'] = 'particle'
    data, rand = anystat.columns(case)
    made = anystat.edges(case)
    ref_p = anystat.params(case, made)
    over_all = over in ('all', 'everything')
    # a parameter set that differs in what is overridden
    other, omade = case['other'], anystat.edges(case['other'])
    p, o = copy.deepcopy(ref_p), anystat.params(other, omade)
    kw = {}
    if 'degree' in over or over_all:
        p['degrees'] = o['degrees']
        if three:
            deg = [ref_p['degrees'][k] for k in ('ell1', 'ell2', 'ELL')]
            kw['degrees'] = (''.join(map(str, deg)) if case['how'] == 'str'
                             else tuple(deg) if case['how'] == 'tuple'
                             else deg)
        else:
            kw['degree'] = case['ell']
    if 'binning' in over or over_all or made[0] == 'custom':
        for k in ('binning', 'range', 'num_bins'):
            p[k] = o[k]
        kw['binning'] = gen.make_binning(anystat.space(case), made)
        if three and not over_all and 'form' not in over:
            # the bin index must suit both numbers of bins
            p['num_bins'] = ref_p['num_bins']
            if 'pad' in p['binning'] and p['num_bins'] < 7:
                p['binning'] = 'lin'
    if 'sampling' in over or over_all:
        for k in ('boxsize', 'ngrid', 'assignment', 'interlace', 'alignment',
                  'padscale', 'padfactor'):
            if k in o:
                p[k] = o[k]
        kw['sampling_params'] = sampling_of(case, case['how'])
        if case['upper']:
            kw['sampling_params']['assignment'] = case['assignment'].upper()
    if three and ('form' in over or over_all):
        if over_all or 'binning' in over:
            p['form'], p['idx_bin'] = o['form'], o['idx_bin']
        else:
            # another legal index, also when the overriding one is zero
            p['form'] = 'row' if case['how'] == 'str' else 'off-diag'
            p['idx_bin'] = ((ref_p['idx_bin'] or 0) + 1) % p['num_bins']
        kw['form'] = ref_p['form']
        if ref_p['idx_bin'] is not None:
            kw['idx_bin'] = ref_p['idx_bin']
    types = case['types']
    if types and anystat.STATS[types][4] == anystat.points(case):
        # made for another statistic: the measurement function decides
        p['statistic_type'] = anystat.STATS[types][2]
        p['catalogue_type'] = anystat.STATS[types][3]
    else:
        types = None
    if case.get('wa') is not None:
        wa = case['wa']
        kw['wa_orders'] = ''.join(map(str, wa)) if case['how'] == 'str' \
            else tuple(wa)
    before = copy.deepcopy({k: v for k, v in kw.items() if k != 'binning'})
    edges = list(kw['binning'].bin_edges) if 'binning' in kw else None
    set_threads(1)
    try:
        ref = anystat.measure(case, data, rand, made)
        if over == 'all':
            pset = None
        else:
            pset = meas.call(ParameterSet, param_dict=p)
        cats = anystat.cats(case, data, rand)
        kw.update(anystat.los_args(case, data, rand))
        with Logger(case['logger']) as log, scratch() as path:
            got = meas.call(anystat.func(case), *cats, paramset=pset,
                            logger=log.logger, **kw)
            check(not list(path.iterdir()), 'files were written')
    finally:
        set_threads(2)
    what = f"{case['stat']} with {sorted(kw)} given as arguments"
    check(set(got) == set(ref), f'{what}: fields')
    if over == 'all':
        # the template has another planner scheme
        c11.compare(case, ref, got, 1., data, rand, what)
    else:
        for k in ref:
            equal(got[k], ref[k], f'{what}: {k}')
        for k in ('degrees', 'num_bins', 'range'):
            a, b = pset[k], ref_p[k]
            check(made[0] == 'custom' and k != 'degrees' or a == b
                  or k == 'range' and np.allclose(a, b, rtol=1e-14),
                  f'{what}: the parameter set ends with `{k}` {a}, not {b}')
        for k in ('boxsize', 'ngrid', 'statistic_type', 'catalogue_type'):
            have = pset[k]
            if k == 'statistic_type' and case.get('wa') is not None:
                have = have.removesuffix('-wa')
            check(have == ref_p[k], f'{what}: the parameter set ends with '
                  f'`{k}` {pset[k]}, not {ref_p[k]}')
    for k, v in before.items():
        w = kw[k]
        same = (set(v) == set(w) and all(np.array_equal(v[n], w[n])
                                         for n in v)) if isinstance(
            v, dict) else np.array_equal(v, w)
        check(same, f'argument `{k}` was altered: {w}, was {v}')
    if edges is not None:
        check(list(kw['binning'].bin_edges) == edges, 'binning was altered')
    return ok(bool(before) or 'binning' in kw or types is not None,
              case['stat'], over, f'types={types is not None}')


# -- omitted arguments ------------------------------------------------------------

@st.composite
def omit_strategy(draw):
    case = draw(anystat.cases(nd=15, nr=25, max_mesh=500))
    case['box'] = draw(gen.scalars('given', 'auto', 'auto'))
    case['grid'] = draw(gen.scalars('given', 'cutoff', 'cutoff'))
    case['expand'] = draw(st.one_of(gen.scalars(1., 1.02, 1.5),
                                    st.floats(1, 1.5)))
    case['fine'] = draw(st.floats(0.7, 1.3))
    case['los'] = draw(gen.scalars('given', 'omitted', 'omitted'))
    case['where'] = draw(gen.scalars('paramset', 'sampling'))
    case['logger'] = draw(gen.scalars(*LOGGERS))
    return case


def run_omit(case):
    from triumvirate.parameters import ParameterSet
    data, rand = anystat.columns(case)
    made = anystat.edges(case)
    sim = anystat.cattype(case) == 'sim'
    case['alignment'] = 'centre'
    ref_case, kw = dict(case), {}
    pos = (data if sim else rand)['pos']
    cats = anystat.cats(case, data, rand)
    rcats = anystat.cats(case, data, rand)
    if case['box'] == 'auto':
        span = cats[-1].spans
        span = [float(span[a]) for a in 'xyz']
        equal(span, pos.max(axis=0) - pos.min(axis=0), 'catalogue spans')
        if min(span) <= 0:
            return ok(False, 'flat')
        ref_case['boxsize'] = [s*case['expand'] for s in span]
    L = ref_case['boxsize']
    cut = None
    if case['grid'] == 'cutoff':
        fourier = anystat.space(case) == 'fourier'
        n = max(case['ngrid'])*case['fine']
        cut = n*math.pi/max(L) if fourier else 2*max(L)/n
        grid = []
        for s in L:
            x = s*cut/math.pi if fourier else 2*s/cut
            if abs(x - round(x)) < 1e-6:
                return ok(False, 'near-integer')
            x = math.ceil(x)
            grid.append(x + x % 2)
        ref_case['ngrid'] = grid
        if np.prod(grid) > 4000:
            return ok(False, 'large')
    p = anystat.params(case, made)
    if case['box'] == 'auto':
        p['boxsize'] = dict.fromkeys('xyz')
        if case['where'] == 'sampling':
            kw['sampling_params'] = {'expand': case['expand']}
        else:
            p['expand'] = case['expand']
    if cut is not None:
        p['ngrid'] = dict.fromkeys('xyz')
        if case['where'] == 'sampling' and case['box'] == 'given':
            kw['sampling_params'] = {
                'cutoff_nyq': cut, 'ngrid': [None]*3}
            p['ngrid'] = dict(zip('xyz', [8, 8, 8]))
        else:
            p['cutoff_nyq'] = cut
    ref_p = anystat.params(ref_case, made)
    los = {}
    if not sim:
        if case['los'] == 'given':
            los = anystat.los_args(case, data, rand)
        names = ['los_data', 'los_rand'][-len(cats):]
        if los == {}:
            ref_los = {n: meas.call(c.compute_los)
                       for n, c in zip(names, rcats)}
            for n, x in zip(names, [data, rand][-len(cats):]):
                if np.all(np.linalg.norm(x['pos'], axis=1) > 1e-9):
                    c11.close(ref_los[n], gen.unit(x['pos']), 'lines of sight',
                              rtol=1e-9, scale=1.)
        else:
            ref_los = los
    else:
        ref_los = {}
    set_threads(1)

    def attempt(c, pd, **kwargs):
        pset = meas.call(ParameterSet, param_dict=pd)
        try:
            return anystat.measure(
                case, data, rand, made, paramset=pset, catalogues=c,
                los=False, **kwargs), pset
        except (ValueError, RuntimeError) as exc:
            return exc, pset
    try:
        ref, _ = attempt(rcats, ref_p, **ref_los)
        with Logger(case['logger']) as log:
            got, pset = attempt(cats, p, logger=log.logger, **kw, **los)
    finally:
        set_threads(2)
    what = (f"{case['stat']} with box {case['box']}, grid {case['grid']}, "
            f"lines of sight {case['los']}")
    if isinstance(ref, Exception) or isinstance(got, Exception):
        check(type(ref) is type(got), f'{what}: {got!r}, but {ref!r} with '
              'explicit values')
        return ok(False, 'raised')
    check(set(got) == set(ref), f'{what}: fields')
    for k in ref:
        equal(got[k], ref[k], f'{what}: {k}')
    check([pset['ngrid'][a] for a in 'xyz'] == list(ref_case['ngrid']),
          f'{what}: `ngrid` {pset["ngrid"]}, expected {ref_case["ngrid"]}')
    check(np.allclose([pset['boxsize'][a] for a in 'xyz'], L, rtol=1e-14),
          f'{what}: `boxsize` {pset["boxsize"]}, expected {L}')
    return ok(bool(case['box'] == 'auto' or cut or not los), case['stat'],
              f"box={case['box']}", f"grid={case['grid']}",
              f"los={case['los']}")



# -- too few arguments ----------------------------------------------------------

@st.composite
def few_strategy(draw):
    case = draw(anystat.cases(nd=4, nr=6, max_mesh=64))
    case['given'] = draw(st.lists(gen.scalars('sampling', 'degree', 'binning'),
                                  max_size=2, unique=True))
    case['form'] = case.get('form', 'diag')
    return case


def run_few(case):
    """Without a parameter set, all other arguments are needed."""
    data, rand = anystat.columns(case)
    made = anystat.edges(case)
    p = anystat.params(case, made)
    kw = {}
    if 'sampling' in case['given']:
        kw['sampling_params'] = sampling_of(case, 'list')
    if 'degree' in case['given']:
        if anystat.points(case) == 3:
            kw['degrees'] = tuple(p['degrees'][k]
                                  for k in ('ell1', 'ell2', 'ELL'))
        else:
            kw['degree'] = case['ell']
    if 'binning' in case['given']:
        kw['binning'] = gen.make_binning(anystat.space(case), made)
    with scratch() as path:
        expect_raises(
            ValueError, lambda: meas.call(
                anystat.func(case), *anystat.cats(case, data, rand), **kw),
            f"{case['stat']} with only {sorted(kw)}")
        check(not list(path.iterdir()), 'files were written')
    return ok(True, case['stat'], *case['given'])


# -- threads ------------------------------------------------------------------

@st.composite
def thread_strategy(draw):
    """Very many particles at a few places, contended for by the threads."""
    which = draw(gen.scalars('any', 'any', 'interlaced'))
    case = draw(anystat.cases(
        stats=['powspec-survey'] if which == 'interlaced' else None,
        nd=draw(gen.scalars(2, 5)), nr=5,
        max_mesh=draw(gen.scalars(64, 1728))))
    if which == 'interlaced':
        # a second mesh is filled, with complex weights
        case['interlace'] = True
        case['ell'] = draw(gen.scalars(1, 2))
    case['copies'] = draw(gen.scalars(600, 2000))
    case['order'] = draw(gen.scalars('tile', 'repeat'))
    case['threads'] = draw(gen.scalars(8, 8, 4, 3))
    return case


def run_threads(case):
    def many(cols):
        if cols is None:
            return None
        take = np.arange(len(cols['pos']))
        take = (np.tile(take, case['copies']) if case['order'] == 'tile'
                else np.repeat(take, case['copies']))
        return {k: None if v is None else np.asarray(v)[take]
                for k, v in cols.items()}

    data, rand = map(many, anystat.columns(case))
    made = anystat.edges(case)
    total = sum(np.abs(c['ws']*c['wc']).sum() if 'ws' in c else len(c['pos'])
                for c in (data, rand) if c is not None)
    npt = anystat.points(case)
    mean = anystat.floor(case, data, rand)/len((data or rand)['pos'])
    norm = c11.norm_size(case, data, rand)
    set_threads(1)
    try:
        ref = anystat.measure(case, data, rand, made)
        for _ in range(2):
            set_threads(case['threads'])
            got = anystat.measure(case, data, rand, made)
            set_threads(1)
            what = f"{case['stat']} with {case['threads']} threads"
            check(set(got) == set(ref), f'{what}: fields')
            for k in ref:
                a, b = np.asarray(ref[k]), np.asarray(got[k])
                if k in anystat.value_keys(ref):
                    power = npt - 1 if 'shot' in k else npt
                    scale = mean*norm*len((data or rand)['pos'])**power
                    fin = np.abs(a)[np.isfinite(a)]
                    c11.close(b, a, f'{what}: {k}', rtol=1e-7, scale=max(
                        scale, fin.max() if fin.size else 0.))
                elif k != 'header':
                    c11.close(b, a, f'{what}: {k}', rtol=1e-9)
    finally:
        set_threads(2)
    return ok(bool(total), case['stat'], case['assignment'],
              f"threads={case['threads']}")


# -- data races -----------------------------------------------------------------

@st.composite
def race_strategy(draw):
    case = draw(c19.strategy())
    case['threads'] = draw(gen.scalars(2, 3))
    if 'deg' in case:
        # each shape has loops of its own
        stat = draw(gen.scalars(None, 'bispec-survey', 'bispec-box'))
        if stat:
            case['stat'] = stat
            case.pop('wa', None)
        case['form'] = draw(gen.scalars(*anystat.FORMS, 'triangle'))
        if case['form'] == 'triangle':
            case['form'] = 'full'
            case['deg'] = draw(gen.scalars([0, 0, 0], [1, 1, 0], [2, 2, 0]))
    case['save_bins'] = draw(st.booleans())
    if case['wisdom'] == 'garbage':
        case['wisdom'] = ''
    return case


def run_races(case):
    """The program under ThreadSanitizer: no two threads may clash."""
    prog = prog_path('tsan')
    if not os.path.exists(prog):
        return ok(False, 'unavailable')
    with scratch() as path:
        path = path.resolve()
        why, job = c19.prepare(case, path)
        if job is None:
            return ok(False, why)
        if case['save_bins']:
            with open(job['home']/'p.ini', 'a') as f:
                f.write('save_binned_vectors = true\n')
        try:
            done = subprocess.run(
                [prog, 'p.ini'], cwd=job['home'], capture_output=True,
                stdin=subprocess.DEVNULL, timeout=150, env=dict(
                    job['env'], TSAN_OPTIONS='exitcode=66:history_size=4'))
        except subprocess.TimeoutExpired as exc:
            raise Violation('the program did not end') from exc
        out = (done.stdout + done.stderr).decode('utf-8', 'replace')
        if 'FATAL: ThreadSanitizer' in out:
            return ok(False, 'unavailable')
        bad = re.search(r'WARNING: ThreadSanitizer: (data race|[^\n(]*)', out)
        if bad:
            where = re.findall(r'#0 (\S+).*?(\w+\.\w+:\d+)', out)[:4]
            raise Violation(f'{bad.group(1)} between the '
                            f"{case['threads']} threads, at {where}")
    return ok(done.returncode == 0, case['stat'], case['assignment'],
              f"interlace={case['interlace']}", f'exit={done.returncode}')


CHECKS = [
    Sub('histories', strategy, run, 150, 4000, shards=8,
        rule='at least two measurements were compared'),
    Sub('threads', thread_strategy, run_threads, 240, 4000, shards=6,
        rule='thousands of particles of non-zero weight share a few cells'),
    Sub('races', race_strategy, run_races, 240, 4000, shards=8,
        rule='the program, watched by ThreadSanitizer, completed a measurement '
        'by several threads'),
    Sub('styles', style_strategy, run_style, 300, 6000, shards=4,
        rule='at least one argument overrides the parameter set'),
    Sub('omitted', omit_strategy, run_omit, 300, 6000, shards=4,
        rule='at least one of box, grid and lines of sight is left out'),
    Sub('few', few_strategy, run_few, 100, 1000,
        rule='every case leaves out a needed argument'),
]
