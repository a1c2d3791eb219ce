"""C29: the companion scripts under apps/."""
import contextlib
import io
import os
import re
import runpy
import sys
import warnings
from functools import lru_cache
from pathlib import Path

import numpy as np
import yaml
from hypothesis import strategies as st

import core
import gen
import meas
from core import Sub, Violation, check, close, equal, expect_raises, ok, scratch
from props import c18, c23

TARGETS = ['py']
ASSUMPTIONS = [
    'Scripts are run as programs in a scratch directory, with files laid out '
    'as the package saves them.',
    'The serial number is the only part of a file name its pattern leaves '
    'open, and no name continues beyond the pattern.',
    'Values typed on the command line follow YAML: 1e3 without a point is '
    'a string there.',
]


class Failed(Exception):
    """The script ended with an error."""


def script(name, *argv):
    """Run a script as a program; (its output, the warnings it gave)."""
    path = str(Path(core.ROOT)/'tree'/'apps'/name)
    out = io.StringIO()
    old = sys.argv
    sys.argv = [path, *map(str, argv)]
    try:
        with warnings.catch_warnings(record=True) as said, \
                contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(io.StringIO()) as err:
            warnings.simplefilter('always')
            try:
                runpy.run_path(path, run_name='__main__')
            except SystemExit as exc:
                if exc.code not in (None, 0):
                    raise Failed(err.getvalue()[-300:]) from exc
    finally:
        sys.argv = old
    return out.getvalue(), [str(w.message) for w in said]


def files_under(path):
    return {str(f.relative_to(path)): f.read_bytes()
            for f in Path(path).rglob('*') if f.is_file()}


# -- combining data vectors ------------------------------------------------------------

TWO = ['pk0', 'pk1', 'pk2', 'pk4', 'xi0', 'xi2', 'xi4']
THREE = ['bk000', 'bk110', 'bk202', 'bk112', 'zeta000', 'zeta110', 'zeta202']


@lru_cache(None)
def layout(component):
    """(header lines, column names) the package saves for a statistic."""
    from triumvirate.parameters import ParameterSet
    from triumvirate import threept, twopt
    stat, pole = re.fullmatch(r'(\D+)(\d+)', component).groups()
    box = {'boxsize': [40.]*3, 'ngrid': [4]*3, 'assignment': 'tsc',
           'interlace': False}
    kind, cal, mod, deg = {
        'pk': ('powspec', 'compute_powspec_in_gpp_box', twopt, 1),
        'xi': ('2pcf', 'compute_corrfunc_in_gpp_box', twopt, 1),
        'bk': ('bispec', 'compute_bispec_in_gpp_box', threept, 3),
        'zeta': ('3pcf', 'compute_3pcf_in_gpp_box', threept, 3)}[stat]
    rng = ('lin', .1, .3, 2, None) if stat[-1] == 'k' else \
        ('lin', 5., 20., 2, None)
    degrees = {'ELL': int(pole)} if deg == 1 else dict(
        zip(('ell1', 'ell2', 'ELL'), map(int, pole)))
    p = gen.param_dict(box, kind, 'sim', rng, degrees)
    p['directories'] = {'catalogues': None, 'measurements': '.'}
    p['tags'] = {'output': ''}
    cat = gen.catalogue({'pos': np.random.RandomState(3).uniform(
        0, 40, (12, 3))})
    cat['nz'] = 1.
    with scratch() as path:
        meas.call(getattr(mod, cal), cat,
                  paramset=meas.call(ParameterSet, param_dict=p), save='.txt')
        found = list(path.glob('*.txt'))
        check(len(found) == 1 and found[0].name.startswith(component),
              f'{component} is saved as {[f.name for f in found]}')
        lines = found[0].read_text().splitlines()
    head = [ln for ln in lines if ln.startswith('#')]
    names = re.findall(r'\[\d+\] ([^,]+)', head[-1])
    return head, names


@st.composite
def combine_strategy(draw):
    comps = draw(st.lists(st.sampled_from(TWO + THREE), min_size=1,
                          max_size=4, unique=True))
    serials = draw(st.lists(st.one_of(
        st.integers(0, 12), st.integers(0, 1200)), min_size=1, max_size=6,
        unique=True))
    lo, hi = draw(st.integers(0, 15)), draw(st.integers(0, 1300))
    return {
        'components': comps, 'serials': serials,
        'zfill': draw(gen.scalars(0, 0, 3, 4)),
        'head': draw(gen.scalars('_', '_run', '_run_', '_DR12SGC-V6C_',
                                 '_z0.5_', '_diag_', '__')),
        'tail': draw(gen.scalars('', '_0.50z0.75', '.txt', '_a_', '_1',
                                 '_99.txt')),
        'range': draw(gen.scalars(None, None, 'some', 'some', 'one', 'three',
                                  'all')),
        'lo': lo, 'hi': hi, 'nbins': [
            draw(st.integers(1, 4)) for _ in comps],
        'fault': draw(gen.scalars(None, None, None, 'coords', 'counts',
                                  'centres', 'missing', 'swapped', 'none')),
        'where': draw(gen.scalars('in', 'in', 'nested')),
        'decoys': draw(st.booleans()), 'seed': draw(gen.seeds()),
    }


def write_vector(path, component, n, coords, rng):
    """A saved measurement; what it holds as the file states it."""
    head, names = layout(component)
    cols = {}
    for name in names:
        if name.endswith('_cen'):
            cols[name] = coords[0]
        elif name.endswith('_eff'):
            cols[name] = coords[1]
        elif name.startswith(('nmodes', 'npairs')):
            cols[name] = coords[2]
        else:
            cols[name] = rng.standard_normal(n)*10.**rng.integers(-4, 6)
    rows = []
    for i in range(n):
        row = []
        for name in names:
            v = cols[name][i]
            row.append(f'{int(v):10d}' if name.startswith('n')
                       else f'{v: .9e}' if name.startswith(('Re', 'Im'))
                       else f'{v:.9e}')
        rows.append('\t'.join(row))
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text('\n'.join(head + rows) + '\n')
    data = {name: np.array([float(r.split('\t')[k]) for r in rows])
            for k, name in enumerate(names)}

    def pick(rule):
        return data[next(x for x in names if re.match(rule, x))]
    raw = pick('Re') + 1j*pick('Im')
    shot = pick(r'Re.*_shot') + 1j*pick(r'Im.*_shot') \
        if any('_shot' in x for x in names) else np.zeros(n)
    return pick('.*_cen'), pick('.*_eff'), pick('n'), raw, shot


def run_combine(case):
    rng = np.random.default_rng(case['seed'])
    comps, fault = case['components'], case['fault']
    serials = case['serials']
    if fault in ('missing', 'swapped') and (
            len(comps) < 2 or len(serials) < 2):
        fault = None
    sel = None
    if case['range'] == 'some':
        sel = [min(case['lo'], case['hi']), max(case['lo'], case['hi'])]
    elif case['range'] == 'one':
        sel = [serials[0]]*2
    elif case['range'] == 'all':
        sel = [min(serials), max(serials)]
    elif case['range'] == 'three':
        sel = [0, 1, 2]

    def chosen(s):
        return sel is None or sel[0] <= s <= sel[1]
    tag = case['head'] + '(.*)' + case['tail']

    def name(comp, s):
        return comp + case['head'] + str(s).zfill(case['zfill']) + case['tail']
    with scratch() as path:
        where = path/'in'
        if case['where'] == 'nested':
            # a folder whose own name fits the pattern
            where = path/name(comps[0], 7)
        where.mkdir()
        want = {}
        kept = [s for s in serials if chosen(s)]
        other = None
        if kept:
            other = kept[-1]
        warned = False
        for comp, n in zip(comps, case['nbins']):
            edges = np.sort(rng.uniform(.01, 9, 2*n)).reshape(n, 2)
            coords = [edges[:, 0], edges[:, 1], rng.integers(1, 10**6, n)]
            held = list(serials)
            if comp == comps[-1] and fault == 'missing':
                held.remove(serials[-1])
            if comp == comps[-1] and fault == 'swapped':
                held[-1] = max(serials) + 1
            for s in held:
                mine = [x.copy() for x in coords]
                if fault in ('centres', 'coords', 'counts') \
                        and comp == comps[0] and s == other \
                        and len(kept) > 1:
                    k = ['centres', 'coords', 'counts'].index(fault)
                    mine[k][-1] += 1
                    warned = True
                want[comp, s] = write_vector(where/name(comp, s), comp, n,
                                             mine, rng)
        if case['decoys']:
            for comp in comps:
                (where/('old_' + name(comp, 3))).write_text('# x\n')
                (where/(comp + 'else')).write_text('# x\n')
        before = files_under(where)
        (path/'out').mkdir()
        argv = ['--tag=' + tag, '-s', *comps, '--input-dir', where,
                '--output-dir', path/'out']
        if fault == 'none':
            argv[0] = '--tag=_nothing' + tag
        if sel is not None:
            argv += ['--range', *sel]
        what = f'combining {comps} over {sorted(serials)}, ' \
            f'pattern {tag!r}, range {sel}'
        per = {c: sorted((s for (d, s) in want if d == c and chosen(s)),
                         key=lambda s: name(c, s)) for c in comps}
        refuse = fault == 'none' or case['range'] == 'three' \
            or any(not v for v in per.values()) \
            or any(v != per[comps[0]] for v in per.values())
        if refuse:
            expect_raises(Exception, lambda: script(
                'io/comb_data_vectors.py', *argv), what)
            check(files_under(where) == before, f'{what}: inputs changed')
            check(not os.listdir(path/'out'), f'{what}: refused, but wrote '
                  f'{os.listdir(path/"out")}')
            return ok(True, 'refused', f'fault={fault}')
        _, said = script('io/comb_data_vectors.py', *argv)
        check(files_under(where) == before, f'{what}: inputs changed')
        made = os.listdir(path/'out')
        check(len(made) == 1 and made[0].endswith('.npz')
              and made[0].startswith(''.join(comps)),
              f'{what}: wrote {made}')
        with np.load(path/'out'/made[0]) as f:
            got = {k: f[k] for k in f.files}
        order = per[comps[0]]
        mismatch = [w for w in said if 'do not match' in w]
        check(bool(mismatch) == warned,
              f'{what}: bins {"" if warned else "do not "}differ, '
              f'warnings {said}')
        for k, i in (('data_vectors', 3), ('data_vectors_shotnoise', 4)):
            ref = np.array([np.concatenate([want[c, s][i] for c in comps])
                            for s in order])
            equal(got[k], ref, f'{what}: {k}')
        for k, i in (('data_bin_centres', 0), ('data_bin_coords', 1),
                     ('data_bin_counts', 2)):
            if warned:
                continue
            equal(got[k], np.concatenate(
                [want[c, order[0]][i] for c in comps]), f'{what}: {k}')
    return ok(len(order) > 1 or len(comps) > 1,
              *{re.match(r'\D+', c).group() for c in comps},
              f'fault={fault}')


# -- exchanging the axes of a measurement ------------------------------------------------

@st.composite
def exchange_strategy(draw):
    from props import anystat
    case = draw(anystat.cases(
        stats=[s for s in anystat.STATS if anystat.STATS[s][4] == 3],
        norms=('none', 'particle'), nd=8, nr=12, max_mesh=150, wa=False))
    case['form'] = 'full'
    case['deg'] = list(draw(gen.scalars(
        (1, 0, 1), (0, 1, 1), (2, 0, 2), (0, 2, 2), (1, 2, 1), (2, 1, 1),
        (1, 2, 3), (1, 3, 2), (3, 1, 2), (1, 1, 0), (0, 0, 0), (2, 2, 2))))
    return {'job': case,
            'tag': draw(gen.scalars('', '_run1', '_z0.5', '_0.50z0.75', '.a',
                                    '_bk202', '_x_y')),
            'ext': draw(gen.scalars('.txt', '.txt', '', '.dat')),
            'out': draw(gen.scalars(None, 'out', 'out.d')),
            'out_tag': draw(gen.scalars(None, None, '_ex', '.b', '_v1.2'))}


def run_exchange(case):
    from props import anystat
    from triumvirate.parameters import ParameterSet
    core.set_threads(1)
    c = case['job']
    made = anystat.edges(c)
    cols = anystat.columns(c)
    p = anystat.params(c, made)
    p['tags'] = {'output': case['tag']}
    p['directories'] = {'catalogues': None, 'measurements': '.'}
    flip = {**c, 'deg': [c['deg'][1], c['deg'][0], c['deg'][2]]}
    q = anystat.params(flip, made)
    q['tags'] = p['tags']
    what = f"exchanging {c['stat']} {c['deg']}"
    with scratch() as path:
        anystat.measure(c, *cols, made, save='.txt', paramset=meas.call(
            ParameterSet, param_dict=p))
        src = path/(c18.expected_name(c, p) + '.txt')
        check(src.exists(), f'{what}: saved as {os.listdir(path)}')
        if case['ext'] != '.txt':
            src = src.rename(path/(c18.expected_name(c, p) + case['ext']))
        argv = [src]
        dest = path
        if case['out']:
            dest = path/case['out']
            dest.mkdir()
            argv += ['--output-dir', dest]
        if case['out_tag']:
            argv += ['--output-tag', case['out_tag']]
        before = files_under(path)
        script('io/exchange_coord_axes.py', *argv)
        after = files_under(path)
        old = before[src.name]
        check(after.get(src.name) == old, f'{what}: input changed')
        new = {k: v for k, v in after.items() if k not in before}
        if c['deg'][0] == c['deg'][1]:
            check(not new, f'{what}: wrote {sorted(new)}')
            return ok(True, 'equal degrees')
        stem = c18.expected_name(flip, q)
        name = stem + (case['out_tag'] or '') + case['ext']
        file = (dest/name).relative_to(path)
        check(set(new) == {str(file)},
              f'{what}: wrote {sorted(new)}, expected {file}')
        a = old.decode().splitlines()
        b = new[str(file)].decode().splitlines()
        ha, hb = ([x for x in t if x.startswith('#')] for t in (a, b))
        check(hb[:-1] == ha[:-1], f'{what}: header became {hb}')
        c18.check_columns(flip, q, [hb[-1][2:]], what)
        ra, rb = ([x.split('\t') for x in t if not x.startswith('#')]
                  for t in (a, b))
        n = made[3]
        check(len(ra) == n*n and len(rb) == n*n,
              f'{what}: {len(ra)} and {len(rb)} rows for {n} bins')
        for i in range(n):
            for j in range(n):
                x, y = ra[i*n + j], rb[j*n + i]
                check(y == x[3:6] + x[:3] + x[6:],
                      f'{what}: row {(j, i)} is {y}, from {x}')
        # exchanging once more restores the file
        (path/'back').mkdir()
        script('io/exchange_coord_axes.py', path/file, '--output-dir',
               path/'back')
        back = files_under(path/'back')
        check(list(back.values()) == [old], f'{what}: twice does not restore '
              f'the file: {back}')
        check(list(back) == [c18.expected_name(c, p) + (
            case['out_tag'] or '') + case['ext']],
            f'{what}: twice is named {list(back)}')
    return ok(made[3] > 1, c['stat'], f"ext={case['ext']}")


# -- generating parameter files ----------------------------------------------------------

LEAVES = {
    'directories.measurements': 'path', 'files.data_catalogue': 'path',
    'catalogue_columns': 'names', 'tags.output': 'path',
    'boxsize.x': 'float', 'boxsize.y': 'float', 'ngrid.x': 'int',
    'ngrid.z': 'int', 'expand': 'float', 'cutoff_nyq': 'float',
    'alignment': 'word', 'padscale': 'word', 'padfactor': 'float',
    'assignment': 'word', 'interlace': 'bool', 'catalogue_type': 'word',
    'statistic_type': 'word', 'degrees.ell1': 'int', 'degrees.ELL': 'int',
    'wa_orders.i': 'int', 'form': 'word', 'norm_convention': 'word',
    'binning': 'word', 'range': 'pair', 'num_bins': 'int', 'idx_bin': 'int',
    'fftw_scheme': 'word', 'use_fftw_wisdom': 'bool', 'verbose': 'int',
    'save_binned_vectors': 'bool', 'progbar': 'bool',
}
INI = ['catalogue_dir', 'measurement_dir', 'data_catalogue_file',
       'catalogue_columns', 'output_tag', 'boxsize_x', 'boxsize_z', 'ngrid_y',
       'expand', 'cutoff_nyq', 'alignment', 'padfactor', 'assignment',
       'interlace', 'catalogue_type', 'statistic_type', 'ell1', 'ELL', 'i_wa',
       'form', 'binning', 'bin_min', 'bin_max', 'num_bins', 'idx_bin',
       'fftw_scheme', 'use_fftw_wisdom', 'verbose', 'progbar']


@st.composite
def value(draw, kind):
    """(typed text, value it stands for)"""
    if kind == 'int':
        v = draw(st.integers(-20, 2000))
        return [str(v), v]
    if kind == 'float':
        v = draw(st.integers(-10**6, 10**6))/1000
        text = f'{v:.3f}'
        return [text, float(text)]
    if kind == 'bool':
        t = draw(gen.scalars('true', 'false', 'on', 'off', 'True', 'False'))
        return [t, t.lower() in ('true', 'on')]
    if kind == 'pair':
        a, b = sorted(draw(st.tuples(*[st.integers(0, 999)]*2)))
        return [f'[{a/100}, {b/100}]', [a/100, b/100]]
    if kind == 'names':
        v = draw(st.lists(gen.scalars('x', 'y', 'z', 'nz', 'ws', 'wc'),
                          max_size=6))
        return [repr(v), v]
    if kind == 'path':
        t = draw(gen.scalars('out/', 'a/b.dat', '_tag', 'x', '_z0.5', './'))
        return [t, t]
    t = draw(gen.scalars('full', 'cic', 'none', 'pad', 'survey', 'powspec',
                         'lin', 'measure'))
    return [t, t]


@st.composite
def generate_strategy(draw):
    fmt = draw(gen.scalars('yml', 'yaml', 'ini'))
    names = draw(st.lists(gen.scalars(*(
        sorted(LEAVES) if fmt != 'ini' else INI)), max_size=6, unique=True))
    mods = []
    for k in names:
        kind = LEAVES[k] if fmt != 'ini' else draw(gen.scalars(
            'int', 'float', 'bool', 'path', 'word'))
        mods.append([k, *draw(value(kind))])
    return {'fmt': fmt, 'mods': mods,
            'unknown': draw(gen.scalars(None, None, None, 'child', 'parent')),
            'output': draw(gen.scalars('new', 'deep', 'default', 'dotted')),
            'stem': draw(gen.scalars('params', 'my.params', 'p_v1.0')),
            'say': draw(st.booleans()),
            'values': draw(st.lists(st.tuples(
                gen.scalars(*sorted(LEAVES)), st.integers(0, 3)),
                max_size=5)),
            'noeol': draw(st.booleans()), 'indent': draw(st.booleans())}


def lookup(d, key):
    for k in key.split('.'):
        d = d[k]
    return d


def run_generate(case):
    fmt, mods = case['fmt'], [list(m) for m in case['mods']]
    res = Path(core.ROOT)/'tree'/'src'/'triumvirate'/'resources'
    with scratch() as path:
        text = (res/('params_template.ini' if fmt == 'ini'
                     else 'params_template.yml')).read_text()
        if fmt == 'ini' and case['indent']:
            text = re.sub(r'(?m)^(\w+) = ?', r'  \1=', text)
        if case['noeol']:
            text = text.rstrip('\n')
        ext = '.txt' if case['say'] else '.' + fmt
        src = path/(case['stem'] + ext)
        src.write_text(text)
        argv = [src]
        if case['say']:
            argv += ['--fmt', fmt]
        dest = {'new': path/('new.' + fmt), 'deep': path/'a'/'b'/'c.x',
                'dotted': path/'d.e.f',
                'default': path/f"{case['stem']}_new.{fmt}"}[case['output']]
        if case['output'] != 'default':
            argv += ['-o', dest]
        pairs = [m[:2] for m in mods]
        if case['unknown'] == 'child':
            pairs.append(['no_such_name', 'word'])
        if case['unknown'] == 'parent' and fmt != 'ini':
            pairs.append(['no_such.name', 'word'])
        for k, v in pairs:
            argv += ['-p', k, v]
        what = f'generating {fmt} parameters with {pairs}'
        if case['unknown'] == 'parent' and fmt != 'ini':
            expect_raises(Exception, lambda: script(
                'io/gen_param_file.py', *argv), what)
            check(os.listdir(path) == [src.name],
                  f'{what}: refused, but wrote {os.listdir(path)}')
            return ok(True, 'refused')
        _, said = script('io/gen_param_file.py', *argv)
        new = {k for k in files_under(path) if k != src.name}
        check(new == {str(dest.relative_to(path))}, f'{what}: wrote {new}')
        check(src.read_text() == text, f'{what}: the template changed')
        added = case['unknown'] == 'child'
        check(any('no_such_name' in w for w in said) == added,
              f'{what}: warnings {said}')
        if not added:
            check(not said, f'{what}: warnings {said}')
        got = dest.read_text()
        if fmt == 'ini':
            check_ini(text, got, dict(pairs), what)
        else:
            ref = yaml.safe_load(text)
            for k, _, v in mods:
                *top, leaf = k.split('.')
                (lookup(ref, '.'.join(top)) if top else ref)[leaf] = v
            if added:
                ref['no_such_name'] = 'word'
            have = yaml.safe_load(got)
            check(have == ref and repr(have) == repr(ref),
                  f'{what}: {diff(have, ref)}')
    return ok(len(mods) > 0, fmt, f"output={case['output']}")


def diff(a, b):
    return {k: (a.get(k, 'absent'), b.get(k, 'absent'))
            for k in {*a, *b} if repr(a.get(k)) != repr(b.get(k))}


def check_ini(text, got, mods, what):
    left = dict(mods)
    a, b = text.splitlines(), got.splitlines()
    for x, y in zip(a, b):
        key = x.split('#')[0].split('=')[0].strip()
        if key in mods:
            left.pop(key, None)
            k, eq, v = y.partition('=')
            check(eq and k.strip() == key and v.strip() == mods[key],
                  f'{what}: line {y!r} for {x!r}')
        else:
            check(x == y, f'{what}: line {x!r} became {y!r}')
    check(len(b) >= len(a), f'{what}: lines are missing')
    rest = {}
    for y in b[len(a):]:
        if y.strip():
            k, _, v = y.partition('=')
            rest[k.strip()] = v.strip()
    check(rest == left, f'{what}: added {rest}, expected {left}')


# -- a complete parameter file is the measurement configured ---------------------------------

@st.composite
def configure_strategy(draw):
    from props import anystat
    return {'job': draw(anystat.cases(norms=('none', 'particle', 'mesh'))),
            'order': draw(gen.seeds())}


def run_configure(case):
    from props import anystat
    from triumvirate.parameters import ParameterSet
    c = case['job']
    p = anystat.params(c, anystat.edges(c))
    flat = []
    for k, v in p.items():
        if isinstance(v, dict):
            flat += [(f'{k}.{x}', y) for x, y in v.items()]
        else:
            flat.append((k, v))
    template = yaml.safe_load(
        (Path(core.ROOT)/'tree'/'src'/'triumvirate'/'resources'/'params_template.yml').read_text())
    with scratch() as path:
        src = path/'t.yml'
        src.write_text(yaml.safe_dump(template, sort_keys=False))
        argv = [src, '-o', path/'p.yml']
        rng = np.random.default_rng(case['order'])
        for i in rng.permutation(len(flat)):
            k, v = flat[i]
            if v == lookup(template, k) or v is None:
                continue
            text = str(v)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                text = str(v) if isinstance(v, int) else f'{v:.17g}'
                if isinstance(v, float) and not re.search(r'[.]', text):
                    text = re.sub(r'(e|$)', r'.\1', text, count=1)
            argv += ['-p', k, text]
        script('io/gen_param_file.py', *argv)
        got = meas.call(ParameterSet, param_filepath=path/'p.yml')
    want = meas.call(ParameterSet, param_dict=p)
    a, b = dict(got.items()), dict(want.items())
    check(a == b, f'parameters generated with {list(map(str, argv[3:]))}: '
          f'{diff(a, b)}')
    return ok(True, c['stat'])


# -- tabulating window-convolution coefficients ------------------------------------------

@st.composite
def table_strategy(draw):
    top = draw(gen.scalars(1, 2, 3))
    labels = st.lists(c23.allowed_label(top), min_size=1, max_size=6,
                      unique_by=tuple)
    w, u = draw(labels), draw(labels)
    out = draw(c23.allowed_label(top))
    kind = draw(gen.scalars('near', 'window', 'window', 'free'))
    if kind == 'near':
        out = draw(c23.near(draw(st.sampled_from(w)),
                            draw(st.sampled_from(u)), 9))
    if kind == 'window':
        # as used: the windows and multipoles around the measured one
        base = [[0, 0, 0], [1, 1, 0], [2, 2, 0], [1, 1, 2], [2, 0, 2],
                [0, 2, 2]]
        w = [m for m in base if draw(st.booleans())] or [base[0]]
        u = [m for m in base if draw(st.booleans())] or [base[0]]
        if draw(st.booleans()):
            out = draw(gen.scalars(*base))
    return {'out': out, 'w': w, 'u': u,
            'sort': draw(gen.scalars(None, 'c', 'u', 'w')),
            'save': draw(gen.scalars(None, None, 'terms', 'terms.npy')),
            'commas': draw(st.booleans())}


def run_table(case):
    import sympy
    out, w, u = case['out'], case['w'], case['u']

    def text(m):
        return (',' if case['commas'] else '').join(map(str, m))
    argv = [text(out), '-w', *map(text, w), '-u', *map(text, u)]
    if case['sort']:
        argv += ['-r', case['sort']]
    want = {}
    for q in w:
        for z in u:
            v = float(c23.coefficient(out, q, z))
            if abs(v) > 1e-12:
                want[tuple(q), tuple(z)] = v
    what = f'coefficients of {out} from windows {w} and multipoles {u}'
    with scratch() as path:
        if case['save']:
            argv += ['-s', path/case['save']]
        said, _ = script('calculators/gen_wc_coeffs.py', *argv)
        terms = []
        for line in said.splitlines():
            if line.startswith('Saved'):
                continue
            m = re.fullmatch(r'(\d+): +(\S.*?) Q_\{(\d+)\} Z_\{(\d+)\}', line)
            check(m, f'{what}: line {line!r}')
            check(m[1] == ''.join(map(str, out)), f'{what}: line {line!r}')
            terms.append((tuple(map(int, m[3])), tuple(map(int, m[4])),
                          sympy.sympify(m[2])))
        check(len({t[:2] for t in terms}) == len(terms)
              and {t[:2] for t in terms} == set(want),
              f'{what}: terms {terms}, expected {want}')
        for q, z, v in terms:
            close(float(v), want[q, z], f'{what}: {q} {z}', rtol=1e-10)
        order = {'u': lambda t: t[1], 'w': lambda t: t[0],
                 'c': lambda t: -float(t[2])}[case['sort'] or 'c']
        keys = [order(t) for t in terms]
        check(all(a <= b if not isinstance(a, float) else a <= b + 1e-12
                  for a, b in zip(keys, keys[1:])),
              f"{what}: sorted by {case['sort']}: {terms}")
        made = os.listdir(path)
        check(made == (['terms.npy'] if case['save'] else []),
              f'{what}: wrote {made}')
        if case['save']:
            got = np.load(path/'terms.npy', allow_pickle=True)
            check([(t.index_Q, t.index_Z, t.coeff) for t in got] == terms,
                  f'{what}: saved {list(got)}, printed {terms}')
    return ok(len(terms) > 1, f"sort={case['sort']}", 'empty' if not terms
              else 'terms')


CHECKS = [
    Sub('combine', combine_strategy, run_combine, quick=400, thorough=8000,
        shards=3, rule='several realisations or components were combined, or '
        'an incomplete set was refused'),
    Sub('exchange', exchange_strategy, run_exchange, quick=250,
        thorough=5000, shards=3, rule='more than one bin, or equal degrees '
        'left alone'),
    Sub('generate', generate_strategy, run_generate, quick=500,
        thorough=8000, shards=2, rule='at least one parameter was changed, '
        'or an unknown one was refused'),
    Sub('configure', configure_strategy, run_configure, quick=80,
        thorough=1500, rule='a complete parameter file was generated and '
        'read back'),
    Sub('tabulate', table_strategy, run_table, quick=200, thorough=1500,
        shards=3, rule='more than one coefficient was listed'),
]
