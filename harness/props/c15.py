"""C15: parameter sets against a model of the documented rules."""
import copy
import math
import os
import subprocess
import warnings

import yaml
from hypothesis import strategies as st

import gen
from core import (Sub, Violation, check, close, ok, prog_path, quiet_fds,
                  scratch)

TARGETS = ['py', 'prog']
ASSUMPTIONS = [
    'Nested entries (directories, files, tags, boxsize, ngrid) are present, '
    'as in the template; numbers are finite.',
    'Unknown statistic and catalogue types are only rejected by the C++ '
    'program: the Python measurement functions set both themselves.',
    'A padding factor is given whenever the alignment is by padding, and a '
    'bin index is given for the forms that need one by the program.',
    'Grid numbers derived from the cutoff stay below 1e6.',
]

NPOINT = {'powspec': ('2pt', 'fourier'), '2pcf': ('2pt', 'config'),
          '2pcf-win': ('2pt', 'config'), 'bispec': ('3pt', 'fourier'),
          '3pcf': ('3pt', 'config'), '3pcf-win': ('3pt', 'config'),
          '3pcf-win-wa': ('3pt', 'config'), 'modes': ('none', 'fourier'),
          'pairs': ('none', 'config')}
WINDOWS = ('2pcf-win', '3pcf-win', '3pcf-win-wa')
ORDERS = {'ngp': 1, 'cic': 2, 'tsc': 3, 'pcs': 4}
FLAGS = {'estimate': 64, 'measure': 0, 'patient': 32}
CHOICES = {
    'alignment': ('centre', 'pad'), 'padscale': ('box', 'grid'),
    'assignment': tuple(ORDERS), 'form': ('full', 'diag', 'off-diag', 'row'),
    'norm_convention': ('none', 'particle', 'mesh', 'mesh-mixed'),
    'binning': ('lin', 'log', 'linpad', 'logpad', 'custom'),
    'fftw_scheme': tuple(FLAGS),
}
DEFAULTS = {'expand': 1., 'alignment': 'centre', 'padscale': 'box',
            'assignment': 'tsc', 'interlace': False, 'form': 'diag',
            'norm_convention': 'particle', 'binning': 'lin',
            'fftw_scheme': 'measure', 'use_fftw_wisdom': False,
            'padfactor': 0., 'progbar': False}
WRONG = ('', 'nearest', 'center', 'boxes', 'tcs', 'diagonal', 'meshmixed',
         'linear', 'padlin', 'exhaustive', 'full ', 'Lin pad')


# -- model --------------------------------------------------------------------

def model(d, program=False):
    """(None, derived) for a legal set, (reason, None) for an illegal one."""
    def get(name):
        val = d.get(name)
        return DEFAULTS.get(name) if val is None else val

    val = {}
    for name, choices in CHOICES.items():
        v = get(name)
        v = v if program else v.lower()
        if v not in choices:
            return name, None
        val[name] = v
    out = {'assignment_order': ORDERS[val['assignment']],
           'fftw_planner_flag': FLAGS[val['fftw_scheme']]}

    inter = str(get('interlace')).lower()
    if inter not in ('true', 'false', 'on', 'off'):
        return 'interlace', None
    inter = inter in ('true', 'on')

    stat, cat = d.get('statistic_type'), d.get('catalogue_type')
    if not program:
        stat = stat and stat.lower()
        cat = cat and cat.lower()
    if program and (stat not in NPOINT or cat not in (
            'survey', 'random', 'sim', 'none')):
        return 'type', None
    npoint, space = NPOINT.get(stat, ('', ''))
    out.update(npoint=npoint, space=space)
    if stat in WINDOWS:
        if cat != 'random':
            return 'catalogue for statistic', None
    elif npoint in ('2pt', '3pt') and cat in ('random', 'none'):
        return 'catalogue for statistic', None
    if val['norm_convention'] == 'mesh-mixed':
        if npoint != '2pt' or cat in ('sim', 'random'):
            return 'mesh-mixed', None

    for name in ('degrees', 'wa_orders', 'range', 'num_bins'):
        if not program and d.get(name) is None:
            return name, None
    deg = []
    for name in ('ell1', 'ell2', 'ELL'):
        if name not in d['degrees']:
            return 'degrees', None
        v = d['degrees'][name] or 0
        if v != int(v) or v < 0:
            return 'degrees', None
        deg.append(int(v))
    for name in ('i', 'j'):
        if name not in d['wa_orders']:
            return 'wa_orders', None
        v = d['wa_orders'][name] or 0
        if v != int(v):
            return 'wa_orders', None
    out['shape'] = ('triu' if val['form'] == 'full' and deg[0] == deg[1]
                    else val['form'])

    lo, hi = (d['range'] if d['range'] is not None else (None, None))
    if program:
        lo, hi = lo or 0., hi or 0.
    elif lo is None or hi is None:
        return 'range', None
    if lo < 0 or lo >= hi:
        return 'range', None
    n = d['num_bins'] or 0
    if n != int(n) or n < 2:
        return 'num_bins', None
    if 'pad' in val['binning'] and n < 7:
        return 'num_bins for pad', None
    idx = d.get('idx_bin')
    if val['form'] in ('off-diag', 'row') and idx is None:
        return 'idx_bin unset', None
    idx = idx or 0
    if idx != int(idx) or abs(idx) >= n:
        return 'idx_bin', None
    if val['form'] == 'row' and npoint == '3pt' and idx < 0:
        return 'idx_bin row', None

    box = [d['boxsize'][a] for a in 'xyz']
    box = [0.]*3 if None in box else [float(v) for v in box]
    grid = [d['ngrid'][a] for a in 'xyz']
    if program:
        box = [float(d['boxsize'][a] or 0.) for a in 'xyz']
        grid = [d['ngrid'][a] or 0 for a in 'xyz']
    elif None in grid:
        grid = [0]*3
    if any(v != int(v) or v < 0 for v in grid):
        return 'ngrid', None
    grid = [int(v) for v in grid]
    if any(v < 0 for v in box):
        return 'boxsize', None
    volume = box[0]*box[1]*box[2]
    expand = get('expand')
    if volume == 0 and expand < 1:
        return 'expand', None
    grids = [{g} for g in grid]
    if math.prod(grid) == 0:
        cut = d.get('cutoff_nyq')
        if cut is None or cut <= 0:
            return 'cutoff_nyq', None
        if volume > 0 and space:
            grids = []
            for size in box:
                x = size*cut/math.pi if space == 'fourier' else 2*size/cut
                if x < 1e-6:
                    return 'ambiguous', None
                opts = {math.ceil(x)}
                near = round(x)
                if abs(x - near) < 1e-9*max(1, abs(x)):
                    opts = {near, near + 1}
                grids.append({int(o + o % 2) for o in opts})
    pad = get('padfactor')
    if val['alignment'] == 'pad':
        if pad < 0:
            return 'padfactor', None
        if val['padscale'] == 'box' and pad >= 1:
            return 'padfactor', None
        if val['padscale'] == 'grid' and all(min(g) > 0 for g in grids):
            if any(pad >= max(g) for g in grids):
                return 'padfactor', None
            if any(pad >= min(g) for g in grids):
                return 'ambiguous', None
    wis = get('use_fftw_wisdom')
    wis = '' if str(wis).lower() in ('false', '') else str(wis)
    if wis and val['fftw_scheme'] == 'estimate':
        return 'wisdom', None
    prog = get('progbar')
    if not program and not isinstance(prog, bool) and str(
            prog).lower() not in ('true', 'false'):
        try:
            float(prog)
        except ValueError:
            return 'progbar', None
    out.update(volume=volume, grids=grids, box=box, wisdom=wis,
               interlace=inter and npoint != '3pt', progbar=prog, val=val,
               stat=stat, cat=cat, deg=deg, idx=int(idx), n=int(n), lo=lo,
               hi=hi, pad=pad, expand=expand)
    return None, out


# -- generation ---------------------------------------------------------------

def sizes():
    return st.one_of(gen.scalars(1000., 100, 512.5, 1.), st.floats(0.5, 5000))


@st.composite
def base(draw):
    stat = draw(gen.scalars(*NPOINT))
    if stat in WINDOWS:
        cat = 'random'
    elif stat in ('modes', 'pairs'):
        cat = draw(gen.scalars('survey', 'random', 'sim', 'none'))
    else:
        cat = draw(gen.scalars('survey', 'sim'))
    npoint = NPOINT[stat][0]
    fourier = NPOINT[stat][1] == 'fourier'
    form = draw(gen.scalars(*CHOICES['form']))
    binning = draw(gen.scalars(*CHOICES['binning']))
    n = draw(st.integers(7 if 'pad' in binning else 2, 20))
    idx = draw(st.one_of(st.integers(0, n - 1), st.none()))
    if form in ('row', 'off-diag') and idx is None:
        idx = n - 1
    if form == 'off-diag' and draw(st.booleans()):
        idx = -idx
    norm = draw(gen.scalars('none', 'particle', 'mesh', 'mesh-mixed'))
    if norm == 'mesh-mixed' and (npoint != '2pt' or cat != 'survey'):
        norm = 'mesh'
    lo = draw(st.one_of(gen.scalars(0., 0), st.floats(0, 3)))
    grid = draw(st.one_of(
        st.lists(st.integers(1, 256).map(lambda v: 2*v),
                 min_size=3, max_size=3),
        gen.scalars(None, 0, 32., 64)))
    grid = grid if isinstance(grid, list) else [grid]*3
    box = draw(st.one_of(
        st.lists(sizes(), min_size=3, max_size=3),
        sizes().map(lambda v: [v]*3), gen.scalars([None]*3, [0., 0., 0.])))
    cut = draw(st.one_of(st.none(), st.floats(0.05, 5) if fourier else
                         st.floats(0.5, 50)))
    if not all(grid) and cut is None:
        cut = 0.3 if fourier else 5.
    align = draw(gen.scalars('centre', 'pad'))
    scheme = draw(gen.scalars(*FLAGS))
    return {
        'directories': {'catalogues': draw(gen.scalars(None, 'cats', '')),
                        'measurements': draw(gen.scalars(None, 'meas'))},
        'files': {'data_catalogue': draw(gen.scalars(None, 'a.dat')),
                  'rand_catalogue': draw(gen.scalars(None, 'b.dat'))},
        'catalogue_columns': [], 'catalogue_dataset': None,
        'tags': {'output': draw(gen.scalars(None, '', '_tag'))},
        'boxsize': dict(zip('xyz', box)), 'ngrid': dict(zip('xyz', grid)),
        'expand': draw(st.one_of(gen.scalars(1., 1, 1.02), st.floats(1, 2))),
        'cutoff_nyq': cut, 'alignment': align,
        'padscale': draw(gen.scalars('box', 'grid')),
        'padfactor': draw(st.one_of(gen.scalars(0., 0.5), st.floats(0, .99))),
        'assignment': draw(gen.scalars(*ORDERS)),
        'interlace': draw(gen.scalars(True, False, 'on', 'off', 'true',
                                      'false', None)),
        'catalogue_type': cat, 'statistic_type': stat,
        'degrees': {k: draw(st.one_of(st.integers(0, 6), st.none()))
                    for k in ('ell1', 'ell2', 'ELL')},
        'wa_orders': {k: draw(st.one_of(st.integers(0, 4), st.none()))
                      for k in 'ij'},
        'form': form, 'norm_convention': norm, 'binning': binning,
        'range': [lo, lo + draw(st.one_of(gen.scalars(1.), st.floats(
            1e-3, 200)))],
        'num_bins': n, 'idx_bin': idx, 'fftw_scheme': scheme,
        'use_fftw_wisdom': draw(gen.scalars(
            False, None, '/Some/Dir', 'rel/dir/')) if scheme != 'estimate'
        else False,
        'save_binned_vectors': False,
        'verbose': draw(gen.scalars(60, 100)),
        'progbar': draw(gen.scalars(True, False, None, 10, 2.5)),
    }


@st.composite
def mutation(draw):
    """(path, value) pairs that may make a set illegal."""
    what = draw(gen.scalars(
        'boxsize', 'ngrid', 'expand', 'cutoff', 'choice', 'choice', 'case',
        'padfactor', 'types', 'degrees', 'wa', 'range', 'bins', 'idx',
        'wisdom', 'progbar', 'interlace', 'unset', 'drop', 'absent'))
    ax = draw(gen.scalars('x', 'y', 'z'))
    f = st.floats
    if what == 'boxsize':
        return [[['boxsize', ax], draw(st.one_of(
            gen.scalars(-1., -1e-6, 0., 0, -1000), f(-5000, 5000)))]]
    if what == 'ngrid':
        return [[['ngrid', ax], draw(st.one_of(
            gen.scalars(-2, 0, 15.5, 16., -64), st.integers(-64, 64)))]]
    if what == 'expand':
        return [[['expand'], draw(st.one_of(gen.scalars(0.999999, 1., 0., -1.),
                                            f(-2, 2)))],
                [['boxsize', ax], draw(gen.scalars(0., None, 100.))]]
    if what == 'cutoff':
        return [[['cutoff_nyq'], draw(gen.scalars(0., -0.1, None, 0.2, 2))],
                [['ngrid', ax], draw(gen.scalars(0, 32))]]
    if what in ('choice', 'case'):
        name = draw(gen.scalars(*CHOICES))
        v = draw(gen.scalars(*CHOICES[name])) if what == 'case' else draw(
            st.one_of(gen.scalars(*WRONG), gen.scalars(
                *CHOICES['assignment'], *CHOICES['form'],
                *CHOICES['binning'], *CHOICES['norm_convention'])))
        if what == 'case':
            v = draw(gen.scalars(v.upper(), v.title(), v))
        return [[[name], v]]
    if what == 'padfactor':
        return [[['alignment'], 'pad'], [['padscale'], draw(
            gen.scalars('box', 'grid'))], [['padfactor'], draw(st.one_of(
                gen.scalars(-1e-9, 0., 1., 0.999999, 2., 16., 32, 31.9, -3.),
                f(-1, 70)))]]
    if what == 'types':
        res = [[['catalogue_type'], draw(gen.scalars(
            'survey', 'random', 'sim', 'none', 'SIM', 'Survey'))]]
        if draw(st.booleans()):
            res.append([['statistic_type'], draw(gen.scalars(
                *NPOINT, 'POWSPEC', 'Bispec', '3PCF-win'))])
        return res
    if what == 'degrees':
        return [[['degrees', draw(gen.scalars('ell1', 'ell2', 'ELL'))],
                 draw(gen.scalars(-1, -2, 0, 2., 1.5, 3, None))]]
    if what == 'wa':
        return [[['wa_orders', draw(gen.scalars('i', 'j'))],
                 draw(gen.scalars(0.5, 1., 2, None))]]
    if what == 'range':
        return [[['range'], draw(st.one_of(
            gen.scalars([0., 0.], [1., 1.], [2., 1.], [-0.1, 1.],
                        [None, 1.], [0., None], [1, 2], [-1e-9, 5.],
                        [0., 1e-9]),
            st.lists(f(-1, 3), min_size=2, max_size=2)))]]
    if what == 'bins':
        return [[['num_bins'], draw(st.one_of(gen.scalars(
            1, 0, -3, 6, 7, 2, 2.5, 8., None), st.integers(-2, 12)))],
            [['binning'], draw(gen.scalars(*CHOICES['binning']))]]
    if what == 'idx':
        return [[['form'], draw(gen.scalars('off-diag', 'row'))],
                [['idx_bin'], draw(st.one_of(gen.scalars(
                    None, -1, 0, 1.5, 1.), st.integers(-22, 22)))]]
    if what == 'wisdom':
        return [[['use_fftw_wisdom'], draw(gen.scalars(
            '/Wis/Dom', 'wis', '', 'False', False))],
            [['fftw_scheme'], draw(gen.scalars(*FLAGS))]]
    if what == 'progbar':
        return [[['progbar'], draw(gen.scalars(
            'true', 'False', 'yes', 'sometimes', 5, 0.5, 12.25, '5'))]]
    if what == 'interlace':
        return [[['interlace'], draw(gen.scalars(
            'yes', 'On', 'OFF', 'True', 'maybe', 2, '', True))]]
    if what == 'unset':
        return [[[draw(gen.scalars('boxsize', 'ngrid')), a], None]
                for a in 'xyz']
    if what == 'drop':
        return [[[draw(gen.scalars(
            'expand', 'alignment', 'padscale', 'assignment', 'interlace',
            'form', 'norm_convention', 'binning', 'fftw_scheme',
            'use_fftw_wisdom', 'progbar', 'idx_bin', 'verbose', 'cutoff_nyq',
            'catalogue_columns', 'save_binned_vectors')), '-'], None]]
    return [[draw(gen.scalars(
        ['degrees', '-'], ['wa_orders', '-'], ['range', '-'],
        ['num_bins', '-'], ['range'], ['num_bins'], ['degrees', 'ell1', '-'],
        ['wa_orders', 'j', '-'], ['degrees', 'ELL', '-'])), None]]


def mutate(d, muts):
    d = copy.deepcopy(d)
    for path, val in (m for mut in muts for m in mut):
        if path[-1] == '-':
            node = d
            for key in path[:-2]:
                node = node.get(key, {})
            node.pop(path[-2], None)
        elif len(path) == 1:
            d[path[0]] = val
        elif isinstance(d.get(path[0]), dict):
            d[path[0]][path[1]] = val
    return d


def undetermined(d):
    """Combinations the documentation does not decide."""
    form = d.get('form')
    form = form.lower() if isinstance(form, str) else 'diag'
    idx, n = d.get('idx_bin'), d.get('num_bins')
    if idx is not None and n is not None:
        if form in ('full', 'diag') and (abs(idx) >= n or idx != int(idx)):
            return True
    if form == 'row' and idx is not None and idx < 0 and NPOINT.get(
            str(d.get('statistic_type')).lower(), ('',))[0] != '3pt':
        return True
    part = [d['ngrid'][a] for a in 'xyz']
    if 0 < sum(v is None for v in part) < 3:
        return True
    if sum(bool(v) for v in part) not in (0, 3):
        # partly unset: only decided when rejected
        return 'partial'
    part = [d['boxsize'][a] for a in 'xyz']
    if sum(bool(v) for v in part) not in (0, 3):
        return 'partial'
    return False


@st.composite
def strategy(draw):
    return {'base': draw(base()),
            'muts': draw(st.one_of(
                st.just([]), *[st.lists(mutation(), min_size=k, max_size=k)
                               for k in (1, 1, 1, 2, 3)])),
            'via': draw(gen.scalars('dict', 'dict', 'yaml', 'template'))}


def build(d, via):
    from triumvirate.parameters import ParameterSet, fetch_paramset_template
    with warnings.catch_warnings(), quiet_fds():
        warnings.simplefilter('ignore')
        if via == 'yaml':
            with scratch() as path:
                (path/'p.yml').write_text(yaml.safe_dump(d))
                return ParameterSet(param_filepath=path/'p.yml')
        if via == 'template':
            tmpl = fetch_paramset_template('dict')
            for key in list(tmpl):
                if key not in d:
                    del tmpl[key]
            tmpl.update(d)
            d = tmpl
        return ParameterSet(param_dict=d)


def run(case):
    d = mutate(case['base'], case['muts'])
    unsure = undetermined(d)
    if unsure is True:
        return ok(False, 'undetermined')
    before = copy.deepcopy(d)
    reason, exp = model(d)
    if reason == 'ambiguous' or (exp and any(
            max(g) > 1e6 for g in exp['grids'])):
        return ok(False, 'undetermined')
    from triumvirate.parameters import NonParameterError
    try:
        p = build(d, case['via'])
    except ValueError as exc:
        if reason is None:
            raise Violation(f'legal parameters rejected: {exc}: {d}')
        check(d == before, 'building a parameter set altered its mapping')
        return ok(True, 'illegal', 'illegal:' + reason)
    check(d == before, 'building a parameter set altered its mapping')
    if reason is not None:
        raise Violation(f'illegal parameters ({reason}) accepted: {d}')
    for name in ('assignment_order', 'fftw_planner_flag', 'npoint', 'space',
                 'interlace'):
        check(p[name] == exp[name] and type(p[name]) is type(exp[name]),
              f'derived `{name}` is {p[name]!r}, expected {exp[name]!r}')
    close(p['volume'], exp['volume'], '`volume`', rtol=1e-12)
    got = [p['ngrid'][a] for a in 'xyz']
    if unsure != 'partial':
        if min(min(g) for g in exp['grids']) > 0:
            check(all(v in g for v, g in zip(got, exp['grids'])),
                  f'`ngrid` is {got}, expected {exp["grids"]}')
            check(p['nmesh'] == math.prod(int(v) for v in got),
                  f'`nmesh` is {p["nmesh"]}, `ngrid` {got}')
        else:
            check(p['nmesh'] == 0 and not any(got),
                  f'unset `ngrid` became {got}, `nmesh` {p["nmesh"]}')
    wis = exp['wisdom']
    if wis:
        wis = wis.rstrip('/') + '/'
        check(p['use_fftw_wisdom'] == wis,
              f'`use_fftw_wisdom` is {p["use_fftw_wisdom"]!r}')
        if min(min(g) for g in exp['grids']) > 0 and unsure != 'partial':
            size = 'x'.join(str(int(v)) for v in got)
            for key, tag in (('f', 'cif'), ('b', 'cib')):
                name = p['fftw_wisdom_file_' + key]
                check(name in (f'{wis}fftw_omp_{tag}_{size}.wisdom',
                               f'{wis}fftw_{tag}_{size}.wisdom'),
                      f'wisdom file {name!r} for grid {got}')
    else:
        check(p['use_fftw_wisdom'] is False and not p['fftw_wisdom_file_f']
              and not p['fftw_wisdom_file_b'], 'wisdom is not disabled')
    prog = exp['progbar']
    if isinstance(prog, str):
        prog = {'true': True, 'false': False}.get(prog.lower(), prog)
        prog = prog if isinstance(prog, bool) else float(prog)
    check(p['progbar'] == prog and isinstance(p['progbar'], bool)
          == isinstance(prog, bool), f'`progbar` is {p["progbar"]!r}')
    for name, choice in exp['val'].items():
        check(d.get(name) is None or p.get(name) == choice,
              f'`{name}` is {p.get(name)!r} for {d.get(name)!r}')
    # the given values are kept
    for name in ('expand', 'cutoff_nyq', 'padfactor', 'range', 'num_bins',
                 'idx_bin', 'degrees', 'wa_orders', 'boxsize', 'verbose'):
        if name in d:
            check(p[name] == d[name],
                  f'`{name}` is {p[name]!r}, {d[name]!r} was given')
    # lookups agree
    check(set(p.names()) == {k for k, _ in p.items()}
          and set(d) <= set(p.names()), '`names` and `items` differ')
    for key, v in p.items():
        check(p[key] is v and getattr(p, key) is v and p.get(key) is v,
              f'lookups of `{key}` differ')
    for name in ('nonsense', 'boxsize_x', ''):
        check(p.get(name) is None and p.get(name, 7) == 7,
              'default of an absent parameter')
        try:
            p[name]
        except NonParameterError:
            pass
        else:
            raise Violation(f'`{name}` is a parameter')
        check(not hasattr(p, name or 'nothing'), f'`{name}` is an attribute')
    return ok(True, 'legal', case['via'], str(exp['stat']))


# -- the program's parameter files ----------------------------------------------

@st.composite
def prog_strategy(draw):
    d = draw(base())
    # the program needs set numbers where Python has unset defaults
    for k in ('i', 'j'):
        d['wa_orders'][k] = d['wa_orders'][k] or 0
    if d['form'] in ('off-diag', 'row'):
        d['idx_bin'] = d['idx_bin'] or 0
    if d['catalogue_type'] == 'none':
        d['catalogue_type'] = 'sim'
    d['use_fftw_wisdom'] = bool(d['use_fftw_wisdom']) and 'wis/Dom'
    files = st.lists(gen.scalars('a.dat', '/no/such/b.dat', 'ngrid_x', 'c' * 150,
                                 'sub/ell1=3', 'x' * 200 + '.txt', '${TRVX}/e'),
                     min_size=1, max_size=draw(gen.scalars(1, 2, 9)))
    return {
        'base': d,
        'muts': draw(st.one_of(
            st.just([]), *[st.lists(mutation(), min_size=k, max_size=k)
                           for k in (1, 1, 2)])),
        'dirs': [draw(gen.scalars('', 'cats', '/no/such', '${TRVX}/c',
                                  'padfactor')),
                 draw(gen.scalars('', 'meas', 'num_bins', 'me/as/',
                                  '${TRVX}'))],
        'files': [draw(files), draw(files)],
        'tag': draw(gen.scalars('', '_tag', '_verbose', '.x.y', '_boxsize_x',
                                '_' + 't'*100)),
        'order': draw(st.integers(0, 2**31)),
        'style': draw(st.lists(gen.scalars(
            'comment', 'blank', 'tab', 'crlf', 'prefix', 'suffix', 'inline',
            'indent', 'noeq', 'trailing'), max_size=4)),
        'badtype': draw(gen.scalars(*['']*12, 'cat', 'stat')),
    }


def number(v):
    return repr(float(v)) if isinstance(v, float) else str(v)


def ini_lines(d, case):
    """Lines of the parameter file, in a scrambled order."""
    vals = {}
    vals['catalogue_dir'], vals['measurement_dir'] = case['dirs']
    vals['data_catalogue_file'] = '::'.join(case['files'][0])
    vals['rand_catalogue_file'] = '::'.join(case['files'][1])
    vals['output_tag'] = case['tag']
    for a in 'xyz':
        vals['boxsize_' + a] = d['boxsize'][a]
        vals['ngrid_' + a] = d['ngrid'][a]
    vals.update(d['degrees'])
    for k in 'ij':
        vals[k + '_wa'] = d['wa_orders'][k]
    vals['bin_min'], vals['bin_max'] = d['range']
    for name in ('expand', 'cutoff_nyq', 'alignment', 'padscale', 'padfactor',
                 'assignment', 'interlace', 'catalogue_type',
                 'statistic_type', 'form', 'norm_convention', 'binning',
                 'num_bins', 'idx_bin', 'fftw_scheme', 'use_fftw_wisdom',
                 'verbose', 'progbar'):
        vals[name] = d.get(name)
    vals['catalogue_columns'] = 'x,y,z'
    style = case['style']
    lines = []
    for name, v in vals.items():
        if v is None or v == '':
            line = f'{name} ='
            if case['order'] % 3 == 0:
                continue
        else:
            if isinstance(v, bool):
                v = str(v).lower()
            sep = '\t=\t' if 'tab' in style else ' = '
            line = f'{name}{sep}{v if isinstance(v, str) else number(v)}'
            if 'inline' in style:
                line += '   # num_bins = 1'
        if 'indent' in style:
            line = '  ' + line
        if 'trailing' in style:
            line += '   '
        lines.append(line)
    extra = []
    if 'comment' in style:
        extra += ['# ell1 = 5', '#num_bins = 1', ' # boxsize_x = -4',
                  '   #form = none']
    if 'blank' in style:
        extra += ['', '   ', '\t']
    if 'prefix' in style:
        extra += ['my_ell1 = 9', 'old_binning = none', 'xboxsize_x = -1']
    if 'suffix' in style:
        extra += ['num_bins_old = 1', 'forms = none', 'verbose_ = x',
                  'ELL1 = -3', 'expander = 0.']
    if 'noeq' in style:
        extra += ['num_bins 1', 'form: none', 'ell1=7', 'bin_max == 0']
    import random
    lines += extra
    random.Random(case['order']).shuffle(lines)
    eol = '\r\n' if 'crlf' in style else '\n'
    return eol.join(lines) + (eol if case['order'] % 2 else '')


def norm_path(path, envs):
    for k, v in envs.items():
        path = path.replace('${' + k + '}', v)
    while '//' in path:
        path = path.replace('//', '/')
    return path


def run_prog(case):
    d = mutate(case['base'], [m for m in case['muts'] if all(
        p[0][-1] != '-' and p[0] not in (['range'], ['num_bins']) for p in m)])
    if case['badtype'] == 'cat':
        d['catalogue_type'] = 'mock'
    elif case['badtype'] == 'stat':
        d['statistic_type'] = 'trispec'
    d['verbose'] = 60
    if d.get('catalogue_type') == 'none' or undetermined(d):
        return ok(False, 'undetermined')
    for name in CHOICES:
        # an empty value leaves a choice unset; a value ends at white space
        if isinstance(d.get(name), str):
            d[name] = d[name].split(' ')[0] or None
    if d.get('interlace') == '':
        d['interlace'] = None
    if isinstance(d.get('interlace'), bool):
        d['interlace'] = str(d['interlace']).lower()
    inter = d.get('interlace')
    wis = d.get('use_fftw_wisdom')
    if wis and wis not in ('wis/Dom', 'wis'):
        d['use_fftw_wisdom'] = False
    if str(d.get('form')) in ('off-diag', 'row') and d.get('idx_bin') is None:
        return ok(False, 'undetermined')
    if any(isinstance(d['ngrid'][a], float) for a in 'xyz'):
        for a in 'xyz':
            v = d['ngrid'][a]
            if isinstance(v, float) and v == int(v):
                d['ngrid'][a] = int(v)
    reason, exp = model(d, program=True)
    if reason is None and inter is not None and inter not in (
            'true', 'false', 'on', 'off'):
        reason = 'interlace'
    if reason == 'ambiguous' or (exp and any(
            max(g) > 1e6 for g in exp['grids'])):
        return ok(False, 'undetermined')
    envs = {'TRVX': 'env/dir'}
    with scratch() as path:
        (path/'p.ini').write_bytes(ini_lines(d, case).encode())
        env = dict(os.environ, OMP_NUM_THREADS='1', **envs)
        proc = subprocess.run(
            [prog_path(), 'p.ini'], env=env, capture_output=True,
            timeout=120, text=True, errors='replace')
        mdir = norm_path(case['dirs'][1] or '.', envs)
        used = path/mdir/f'parameters_used{case["tag"]}'
        check(proc.returncode > 0,
              f'the program ended with {proc.returncode} although '
              'no catalogue exists')
        if reason is not None:
            check(not used.exists(),
                  f'illegal parameters ({reason}) accepted by the program')
            return ok(True, 'illegal', 'illegal:' + reason)
        check(used.exists(), 'legal parameters rejected by the program: '
              + (proc.stdout + proc.stderr)[-300:])
        got = {}
        for line in used.read_text().splitlines():
            name, _, v = line.partition(' = ')
            check(name not in got, f'`{name}` is printed twice')
            got[name] = v
    val = exp['val']

    def num(name, v, tol=0.):
        check(abs(float(got[name]) - v) <= tol + 1e-12*abs(v),
              f'`{name}` was used as {got[name]}, {v} was given')

    for i, a in enumerate('xyz'):
        num('boxsize_' + a, exp['box'][i], 6e-4)
        check(int(got['ngrid_' + a]) in exp['grids'][i],
              f'`ngrid_{a}` was used as {got["ngrid_" + a]}, '
              f'expected {exp["grids"][i]}')
    num('volume', exp['volume'], 6e-7*exp['volume'])
    num('nmesh', math.prod(int(got['ngrid_' + a]) for a in 'xyz'))
    num('expand', exp['expand'], 6e-5)
    num('padfactor', exp['pad'], 6e-5)
    num('bin_min', exp['lo'], 6e-5)
    num('bin_max', exp['hi'], 6e-5)
    for name, v in zip(('ell1', 'ell2', 'ELL'), exp['deg']):
        num(name, v)
    num('i_wa', d['wa_orders']['i'] or 0)
    num('j_wa', d['wa_orders']['j'] or 0)
    num('num_bins', exp['n'])
    num('idx_bin', exp['idx'])
    num('assignment_order', exp['assignment_order'])
    num('fftw_planner_flag', exp['fftw_planner_flag'])
    num('verbose', d['verbose'])
    text = dict(val, npoint=exp['npoint'], space=exp['space'],
                shape=exp['shape'], interlace=str(exp['interlace']).lower(),
                catalogue_type=exp['cat'], statistic_type=exp['stat'],
                output_tag=case['tag'], catalogue_columns='x,y,z')
    for name, v in text.items():
        check(got[name] == v,
              f'`{name}` was used as {got[name]!r}, expected {v!r}')
    for i, (name, types) in enumerate((
            ('data_catalogue_file', ('survey', 'sim')),
            ('rand_catalogue_file', ('survey', 'random')))):
        want = []
        for f in case['files'][i]:
            if not f.startswith('/') and case['dirs'][0]:
                f = case['dirs'][0] + '/' + f
            want.append(norm_path(f, envs))
        want = '::'.join(want) if exp['cat'] in types else ''
        check(norm_path(got[name], {}) == want,
              f'`{name}` was used as {got[name]!r}, expected {want!r}')
    return ok(True, 'legal', exp['stat'], *case['style'])


CHECKS = [
    Sub('mappings', strategy, run, 3000, 30000, shards=4,
        rule='the documentation decides whether the set is legal'),
    Sub('program-files', prog_strategy, run_prog, 1500, 15000, shards=4,
        rule='the documentation decides whether the set is legal'),
]
