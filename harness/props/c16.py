"""C16: parameter-set histories against freshly built sets, and round trips."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

import gen
import meas
from core import (Sub, Violation, check, close, equal, ok, quiet_fds, scratch,
                  set_threads)
from props import anystat, c15

TARGETS = ['py', 'drv']
ASSUMPTIONS = [
    'Nested entries are replaced as a whole, not edited in place behind the '
    'parameter set.',
    'The C++ print-out of parameters carries what its printed digits carry: '
    'round trips use values that those digits represent.',
]


def quiet(func, *args, **kw):
    with warnings.catch_warnings(), quiet_fds():
        warnings.simplefilter('ignore')
        return func(*args, **kw)


def fresh(content):
    from triumvirate.parameters import ParameterSet
    return quiet(ParameterSet, param_dict=copy.deepcopy(content))


# -- histories of contents ------------------------------------------------------

@st.composite
def op(draw):
    kind = draw(gen.scalars('item', 'item', 'attr', 'update', 'update',
                            'kwargs', 'restore', 'other'))
    if kind in ('restore', 'other'):
        return {'op': kind, 'base': draw(c15.base())}
    muts = [draw(c15.mutation()) for _ in range(
        draw(gen.scalars(1, 1, 2, 3)) if kind in ('update', 'kwargs') else 1)]
    return {'op': kind, 'muts': muts}


@st.composite
def strategy(draw):
    return {'base': draw(c15.base()),
            'ops': draw(st.lists(op(), min_size=1, max_size=6))}


def changes(content, muts):
    """New values of the top-level entries touched by the mutations."""
    muts = [[m for m in mut if m[0][-1] != '-'] for mut in muts]
    # the present content may lack entries that a rejected update removed
    new = copy.deepcopy(content)
    for path, val in (m for mut in muts for m in mut):
        if len(path) == 1:
            new[path[0]] = val
        elif isinstance(new.get(path[0]), dict):
            new[path[0]][path[1]] = val
    names = {m[0][0] for mut in muts for m in mut}
    return {k: new[k] for k in sorted(names) if k in new}


def same_content(p, q, what):
    a, b = dict(p.items()), dict(q.items())
    check(set(a) == set(b), f'{what}: entries {set(a) ^ set(b)} differ')
    for k in a:
        check(a[k] == b[k] and type(a[k]) is type(b[k]),
              f'{what}: `{k}` is {a[k]!r}, but {b[k]!r} in a set built from '
              'its content')


def run(case):
    p = fresh(case['base'])
    labels, rejected = [], 0
    for o in case['ops']:
        content = copy.deepcopy(dict(p.items()))
        if o['op'] in ('restore', 'other'):
            new = copy.deepcopy(case['base'] if o['op'] == 'restore'
                                else o['base'])
        else:
            new = changes(content, o['muts'])
        if not new:
            continue
        given = copy.deepcopy(new)
        steps = ([{k: v} for k, v in new.items()]
                 if o['op'] in ('item', 'attr') else [new])
        for step in steps:
            content = copy.deepcopy(dict(p.items()))
            try:
                if o['op'] == 'item':
                    for k, v in step.items():
                        quiet(p.__setitem__, k, v)
                elif o['op'] == 'attr':
                    for k, v in step.items():
                        quiet(setattr, p, k, v)
                elif o['op'] == 'kwargs':
                    quiet(p.update, **step)
                else:
                    quiet(p.update, step)
                failed = None
            except ValueError as exc:
                failed = exc
            rejected += failed is not None
            now = dict(p.items())
            check(given == new, f'{o["op"]} altered the values passed in')
            try:
                q = fresh(now)
            except ValueError as exc:
                check(failed is not None,
                      f'{o["op"]} accepted {step}, but a set built from the '
                      f'content is rejected: {exc}')
                check(not getattr(p, '_validity', False),
                      'a parameter set with rejected content claims validity')
                continue
            if failed is not None and now == content:
                continue
            if failed is not None:
                # content that is legal cannot have been rejected
                raise Violation(f'{o["op"]} rejected {step} ({failed}), but '
                                'a set built from the content is accepted')
            check(getattr(p, '_validity', True), 'a validated parameter set denies validity')
            check(not getattr(p, '_original', False), 'an updated parameter set claims to be '
                  'original')
            same_content(p, q, f'after {o["op"]}')
            check(set(p.names()) == set(now), 'names and items differ')
            with scratch() as path:
                p.save(path/'p.yml')
                from triumvirate.parameters import ParameterSet
                r = quiet(ParameterSet, param_filepath=path/'p.yml')
            same_content(r, p, 'saved and loaded')
        labels.append(o['op'])
    return ok(bool(labels), *labels, 'with-rejection' if rejected else
              'all-accepted')


# -- measurements after histories -----------------------------------------------

@st.composite
def meas_strategy(draw):
    case = draw(anystat.cases(nd=12, nr=20, max_mesh=300))
    case['ops'] = draw(st.lists(op(), min_size=1, max_size=4))
    case['other'] = draw(anystat.cases(nd=12, nr=20, max_mesh=300))
    return case


def run_meas(case):
    """A set led through a history and then to some content measures what a
    set built from that content measures."""
    data, rand = anystat.columns(case)
    made = anystat.edges(case)
    target = anystat.params(case, made)
    target['verbose'] = 60
    odata = anystat.columns(case['other'])
    omade = anystat.edges(case['other'])
    p = fresh(anystat.params(case['other'], omade))
    set_threads(1)
    try:
        anystat.measure(case['other'], *odata, omade, paramset=p)
        # the measurement applied its own type only
        q = fresh(dict(p.items()))
        same_content(p, q, 'after a measurement')
        for o in case['ops']:
            new = o.get('base') or changes(dict(p.items()), o['muts'])
            if new:
                try:
                    quiet(p.update, new)
                except ValueError:
                    pass
        quiet(p.update, target)
        got = anystat.measure(case, data, rand, made, paramset=p)
        content = {k: v for k, v in target.items()}
        q = fresh(content)
        exp = anystat.measure(case, data, rand, made, paramset=q)
    finally:
        set_threads(2)
    check(set(got) == set(exp), 'result fields differ')
    big = False
    for k in exp:
        equal(got[k], exp[k],
              f'{case["stat"]} {k} after a history of the parameter set')
        big = big or np.any(np.asarray(exp[k]) != 0)
    return ok(big, *anystat.labels(case))


# -- C++ parameter sets ---------------------------------------------------------

@st.composite
def cpp_strategy(draw):
    d = draw(c15.base())
    for name in ('ell1', 'ell2', 'ELL'):
        d['degrees'][name] = d['degrees'][name] or 0
    for k in 'ij':
        d['wa_orders'][k] = d['wa_orders'][k] or 0
    d['idx_bin'] = d['idx_bin'] or 0
    r4 = st.integers(0, 9999).map(lambda v: v/1e4)
    d['padfactor'] = draw(r4)
    d['expand'] = 1 + draw(r4)
    lo = draw(st.integers(0, 9999))
    d['range'] = [lo/1e4, (lo + draw(st.integers(1, 99999)))/1e4]
    d['boxsize'] = {a: draw(st.integers(1000, 5000000))/1e3 for a in 'xyz'}
    for a in 'xyz':
        d['ngrid'][a] = int(d['ngrid'][a] or 0)
    d['use_fftw_wisdom'] = '/wis/Dom' if d['use_fftw_wisdom'] else False
    if not all(d['ngrid'].values()):
        d['cutoff_nyq'] = d['cutoff_nyq'] or 1.
    if isinstance(d['interlace'], bool):
        d['interlace'] = str(d['interlace']).lower()
    return {'base': d, 'dirs': ['/no/cats', '/no/meas'],
            'files': [['a.dat', '/b.dat'], ['c.dat']],
            'tag': draw(gen.scalars('', '_t')), 'style': [],
            'order': draw(st.integers(0, 1000)),
            'bvec': draw(gen.scalars('', 'true', '/vec/file', 'false')),
            'again': draw(st.booleans())}


# parameters printed as they were given (tolerance of the printed digits)
PRINTED = dict.fromkeys(('ell1', 'ell2', 'ELL', 'i_wa', 'j_wa', 'num_bins',
                         'idx_bin', 'verbose'), 0.)
PRINTED.update(dict.fromkeys(('padfactor', 'expand', 'bin_min', 'bin_max'),
                             6e-5))
PRINTED.update(dict.fromkeys(('alignment', 'padscale', 'assignment',
                              'catalogue_type', 'statistic_type', 'form',
                              'norm_convention', 'binning', 'fftw_scheme',
                              'progbar')))


def run_cpp(case):
    import drv
    d = case['base']
    text = c15.ini_lines(d, case)
    if case['bvec']:
        text += f'\nsave_binned_vectors = {case["bvec"]}\n'
    with scratch() as path:
        (path/'in').write_text(text)
        try:
            quiet(drv.params, *(path/n for n in ('in', 'out', 'copy',
                                                 'back')), case['again'])
        except drv.DriverError as exc:
            raise Violation(f'legal parameters rejected: {exc}')
        out, cpy, back = ((path/n).read_text().splitlines()
                          for n in ('out', 'copy', 'back'))
    check(len(out) > 40, 'parameters are not printed')
    given = dict(ln.split(' = ', 1) for ln in text.splitlines()
                 if ' = ' in ln)
    printed = dict(ln.split(' = ', 1) for ln in out if ' = ' in ln)
    for name in PRINTED:
        if name not in given:
            continue
        check(name in printed, f'`{name}` is not printed')
        a, b = given[name], printed[name]
        same = a == b if PRINTED[name] is None \
            else abs(float(a) - float(b)) <= PRINTED[name]
        check(same, f'`{name}` given as {a} is printed as {b}')
    for a, b in zip(out, cpy):
        check(a == b, f'copied parameter set has {b!r} instead of {a!r}')
    check(len(out) == len(cpy) == len(back), 'numbers of parameters')
    for a, b in zip(out, back):
        while '//' in b:
            b = b.replace('//', '/')
        while '//' in a:
            a = a.replace('//', '/')
        check(a == b, f'printed and read back, {a!r} is {b!r}')
    return ok(True, d['statistic_type'], d['form'])


CHECKS = [
    Sub('histories', strategy, run, 1200, 15000, shards=4,
        rule='at least one update was applied'),
    Sub('measured', meas_strategy, run_meas, 160, 3000, shards=4,
        rule='the measurement has a non-zero value'),
    Sub('cpp-round-trip', cpp_strategy, run_cpp, 600, 8000, shards=2,
        rule='the parameter set is legal'),
]
