"""C19: the command-line program against the Python interface."""
import math
import os
import random
import subprocess

import numpy as np
from hypothesis import strategies as st

import gen
import meas
import refmodel as rm
from core import Sub, Violation, check, close, ok, prog_path, scratch, \
    set_threads
from props import anystat, c11, c18

TARGETS = ['py', 'prog']
ASSUMPTIONS = [
    'Box catalogues span the box, as the program wraps positions where '
    'Python centres them first; window functions are centred, as Python '
    'ignores padding there.',
    'Lines of sight are those towards the particles (files hold none); '
    'padded binning schemes and the binning of the program named custom '
    'are excluded, as both interfaces define them differently.',
    'Random catalogues come with mean densities, and box catalogues do when '
    'the box size is automatic and the normalisation needs them.',
]


@st.composite
def strategy(draw):
    case = draw(anystat.cases(
        norms=('none', 'particle', 'mesh', 'mesh-mixed'), nd=20, nr=40,
        max_mesh=500))
    case['cat']['los'] = 'auto'
    if case['bins']['kind'] == 'custom':
        case['bins']['kind'] = 'lin'
    case['box'] = draw(gen.scalars('given', 'given', 'auto'))
    case['grid'] = draw(gen.scalars('given', 'given', 'cutoff'))
    case['expand'] = draw(st.one_of(gen.scalars(1.01, 1.02, 1.5),
                                    st.floats(1.001, 1.5)))
    case['fine'] = draw(st.floats(0.7, 1.3))
    case['shift'] = draw(gen.scalars(None, 'box', 'grid'))
    case['order'] = draw(st.integers(0, 10**6))
    case['drop'] = draw(st.lists(gen.scalars('ws', 'wc', 'nz'), max_size=3,
                                 unique=True))
    case['extra'] = draw(st.integers(0, 3))
    case['split'] = draw(gen.scalars(1, 1, 2, 3))
    case['text'] = draw(st.lists(gen.scalars(
        'comment', 'blank', 'tab', 'wide', 'crlf', 'noeol', 'exp'),
        max_size=4, unique=True))
    case['tag'] = draw(gen.scalars('', '_t', '.v1.2', '_é'))
    case['out'] = draw(gen.scalars('out', 'out/', 'out/deep.er', '', '.',
                                   'absolute'))
    case['where'] = draw(gen.scalars('', 'cats', 'cats/', 'absolute'))
    case['threads'] = draw(gen.scalars(1, 2, 4))
    case['env'] = draw(st.lists(gen.scalars('tag', 'scheme', 'verbose',
                                            'progbar'),
                                max_size=2, unique=True))
    case['verbose'] = draw(gen.scalars(0, 20, 30, 60))
    case['wisdom'] = draw(gen.scalars('', '', '', '', 'dir', 'env',
                                      'garbage'))
    case['reader'] = draw(gen.scalars('arrays', 'file'))
    return case


def columns(case):
    """Catalogue columns, with what the files leave out at its default."""
    data, rand = anystat.columns(case)
    ctype = anystat.cattype(case)
    drop = list(case['drop'])
    if ctype == 'sim':
        pos = data['pos']
        lo, hi = pos.min(axis=0), pos.max(axis=0)
        L = np.array(case['boxsize'])
        pos = (pos - lo)/(hi - lo)*L
        pos[np.argmin(data['pos'], axis=0), range(3)] = 0.
        pos[np.argmax(data['pos'], axis=0), range(3)] = L
        rng = np.random.RandomState(case['order'] % 2**31)
        data = dict(pos=pos, ws=np.ones(len(pos)), wc=np.ones(len(pos)),
                    nz=rng.uniform(0.5, 2., len(pos))*1e-3)
        # weights of box catalogues are ignored by both
        drop = drop + ['ws', 'wc']
        case['expand'] = 1.
    elif 'nz' in drop:
        drop.remove('nz')
    for c in (data, rand):
        if c is None:
            continue
        for k in ('ws', 'wc'):
            if k in drop:
                c[k] = np.ones(len(c['pos']))
        if 'nz' in drop:
            c['nz'] = None
    return data, rand, [k for k in ('nz', 'ws', 'wc') if k not in drop]


def write_catalogue(path, name, cols, extras, case):
    """Write the file(s); returns (value of the parameter, columns)."""
    rng = random.Random(case['order'])
    names = ['x', 'y', 'z'] + extras
    table = {'x': cols['pos'][:, 0], 'y': cols['pos'][:, 1],
             'z': cols['pos'][:, 2]}
    table.update({k: cols[k] for k in extras})
    for i in range(case['extra']):
        names.append(f'extra{i}')
        table[f'extra{i}'] = np.arange(len(cols['pos']))*7. - 3
    rng.shuffle(names)
    style = case['text']
    sep = '\t' if 'tab' in style else '   ' if 'wide' in style else ' '
    fmt = (lambda v: f'{v:.17e}') if 'exp' in style else repr
    n = len(cols['pos'])
    lines = []
    for i in range(n):
        lines.append(sep.join(fmt(float(table[k][i])) for k in names))
    if 'wide' in style:
        lines = ['  ' + ln + '  ' for ln in lines]
    parts = min(case['split'], n)
    cuts = [n*i//parts for i in range(parts + 1)]
    eol = '\r\n' if 'crlf' in style else '\n'
    files = []
    for j in range(parts):
        part = lines[cuts[j]:cuts[j + 1]]
        if 'comment' in style:
            part.insert(rng.randint(0, len(part)), '# 1 2 3 a comment')
            part.insert(0, '#')
        if 'blank' in style and 'crlf' not in style:
            part.insert(rng.randint(0, len(part)), '')
        file = f'{name}{j or ""}.txt'
        (path/file).write_text(eol.join(part) + (
            '' if 'noeol' in style else eol), newline='')
        files.append(file)
    return files, names


def padded_window(case, main):
    """Set a box in which padding the randoms displaces them, along every
    axis, by a whole number of cells from where centring does; the padding
    factor, or None."""
    span = main['pos'].max(axis=0) - main['pos'].min(axis=0)
    if span.min() <= 0:
        return None
    rng = random.Random(case['order'])
    f = rng.choice([0.3, 0.45, 0.13, 0.37, 1.3])
    if case['shift'] == 'box':
        f /= max(case['ngrid'])
    L, inside = [], True
    for n, s in zip(case['ngrid'], span):
        cells = f*n if case['shift'] == 'box' else f
        # cells on either side of the centred randoms
        x = cells + rng.randint(0, 1)
        if 2*x >= 0.9*n:
            x = cells
        inside &= 2*x < 0.9*n
        L.append(float(s/(1 - 2*x/n)) if inside else None)
    if not inside:
        return None
    case['boxsize'] = L
    return f


def prepare(case, path):
    """Write the files of a run under `path`; None with a reason, or a job."""
    if case['norm'] == 'mesh-mixed' and case['stat'] not in (
            'powspec-survey', '2pcf-survey'):
        case['norm'] = 'mesh'
    ctype = anystat.cattype(case)
    if ctype == 'random' or case['box'] == 'auto':
        case['alignment'] = 'centre'
    data, rand, extras = columns(case)
    main = data if ctype == 'sim' else rand
    if case['box'] == 'auto':
        span = main['pos'].max(axis=0) - main['pos'].min(axis=0)
        if span.min() <= 0:
            return 'flat', None
        case['boxsize'] = [float(s*case['expand']) for s in span]
    pad = None
    if ctype == 'random' and case['box'] == 'given' and case['shift'] \
            and case['grid'] != 'cutoff' and case.get('wa') is None:
        pad = padded_window(case, main)
    L = case['boxsize']
    cut = None
    if case['grid'] == 'cutoff':
        fourier = anystat.space(case) == 'fourier'
        n = max(case['ngrid'])*case['fine']
        cut = n*math.pi/max(L) if fourier else 2*max(L)/n
        grid = []
        for s in L:
            x = s*cut/math.pi if fourier else 2*s/cut
            if abs(x - round(x)) < 1e-6:
                return 'near-integer', None
            x = math.ceil(x)
            grid.append(x + x % 2)
        if np.prod(grid) > 3000:
            return 'large', None
        case['ngrid'] = grid
    made = anystat.edges(case)
    if made[0] == 'custom':
        return 'custom', None
    p = anystat.params(case, made)
    p['tags'] = {'output': case['tag']}
    home = path/'work'
    home.mkdir()
    (path/'abs').mkdir()
    where = {'absolute': str(path/'abs')}.get(case['where'], case['where'])
    catdir = home/where
    catdir.mkdir(exist_ok=True)
    out = {'absolute': str(path/'results')}.get(case['out'], case['out'])
    files = {}
    for name, cols in (('data', data), ('rand', rand)):
        if cols is not None and not (name == 'rand' and ctype == 'sim'):
            files[name], names = write_catalogue(
                catdir, name, cols, extras, case)

    lines = [f'catalogue_dir = {where}', f'measurement_dir = {out}',
             f"catalogue_columns = {','.join(names)}"]
    for name in files:
        lines.append(f'{name}_catalogue_file = ' + '::'.join(files[name]))
    if case['tag'] and 'tag' not in case['env']:
        lines.append(f"output_tag = {case['tag']}")
    env = dict(os.environ, OMP_NUM_THREADS=str(case['threads']))
    for k in list(env):
        if k.startswith('TRV_'):
            del env[k]
    if 'tag' in case['env']:
        lines.append('output_tag = _other')
        env['TRV_OVERRIDE_OUTPUT_TAG'] = case['tag']
    for i, a in enumerate('xyz'):
        if case['box'] == 'given':
            lines.append(f'boxsize_{a} = {float(L[i])!r}')
        if cut is None:
            lines.append(f"ngrid_{a} = {case['ngrid'][i]}")
    if cut is not None:
        lines.append(f'cutoff_nyq = {cut!r}')
    if case['box'] == 'auto':
        lines.append(f"expand = {case['expand']!r}")
    placed = p
    if ctype == 'random' and case['box'] == 'auto' and case['shift']:
        # padding by this much centres the randoms in their automatic box,
        # as the Python interface does
        f = 0.5 - 0.5/case['expand']
        if case['shift'] == 'box':
            placed = dict(p, alignment='pad', padscale='box', padfactor=f)
        elif len(set(case['ngrid'])) == 1:
            placed = dict(p, alignment='pad', padscale='grid',
                          padfactor=f*case['ngrid'][0])
    if pad is not None:
        placed = dict(p, alignment='pad', padscale=case['shift'],
                      padfactor=pad)
    for k in ('alignment', 'padscale', 'padfactor'):
        if placed.get(k) is not None:
            lines.append(f'{k} = {placed[k]}')
    for k in ('assignment', 'statistic_type', 'catalogue_type', 'norm_convention',
              'binning', 'num_bins', 'form', 'idx_bin'):
        v = p.get(k)
        if k == 'statistic_type' and case.get('wa') is not None:
            v = '3pcf-win-wa'
        if v is not None:
            lines.append(f'{k} = {v}')
    lines.append(f"interlace = {str(case['interlace']).lower()}")
    lines += [f'bin_min = {made[1]!r}', f'bin_max = {made[2]!r}']
    for k in ('ell1', 'ell2', 'ELL'):
        lines.append(f"{k} = {p['degrees'][k] or 0}")
    if case.get('wa') is not None:
        lines += [f"i_wa = {case['wa'][0]}", f"j_wa = {case['wa'][1]}"]
    if 'scheme' in case['env']:
        lines.append('fftw_scheme = patient')
        env['TRV_OVERRIDE_FFTW_SCHEME'] = (
            'measure' if case['wisdom'] else 'estimate')
    else:
        lines.append('fftw_scheme = ' + (
            'measure' if case['wisdom'] else 'estimate'))
    if case['wisdom'] == 'env':
        env['TRV_OVERRIDE_USE_FFTW_WISDOM'] = 'wisdom/'
    elif case['wisdom']:
        lines.append('use_fftw_wisdom = wisdom')
    if case['wisdom'] == 'garbage':
        lines[-1] += '/bad'
    lines.append(f"verbose = {case['verbose']}")
    if 'verbose' in case['env']:
        env['TRV_OVERRIDE_VERBOSE'] = '30'
    if 'progbar' in case['env']:
        env['TRV_OVERRIDE_PROGBAR'] = '20'
    random.Random(case['order']).shuffle(lines)
    (home/'p.ini').write_text('\n'.join(lines) + '\n')
    return None, dict(
        data=data, rand=rand, made=made, p=p, cut=cut,
        alignment=placed.get('alignment'), pad=pad, home=home, out=out,
        env=env, lines=lines, catdir=catdir, files=files, names=names,
        inputs={f for f in path.rglob('*') if f.is_file()})


def python_side(case, job):
    """The result of the Python interface, or the exception; catalogues."""
    from triumvirate.catalogue import ParticleCatalogue
    from triumvirate.parameters import ParameterSet
    if case['reader'] == 'file' and case['split'] == 1:
        cats = [meas.call(ParticleCatalogue.read_from_file,
                          str(job['catdir']/v[0]), names=job['names'])
                for v in job['files'].values()]
    else:
        cats = anystat.cats(case, job['data'], job['rand'])
    q = dict(job['p'])
    if case['box'] == 'auto':
        q['boxsize'] = dict.fromkeys('xyz')
        q['expand'] = case['expand']
    if job['cut'] is not None:
        q['ngrid'] = dict.fromkeys('xyz')
        q['cutoff_nyq'] = job['cut']
    try:
        return anystat.measure(
            case, job['data'], job['rand'], job['made'], catalogues=cats,
            los=False, paramset=meas.call(ParameterSet, param_dict=q)), cats
    except (ValueError, RuntimeError) as exc:
        return exc, cats


def stem_of(case, p):
    """File name of the program."""
    stem = c18.expected_name(case, p)
    if case.get('wa') is not None:
        wa = '_wa' + ''.join(map(str, case['wa']))
        deg = ''.join(str(p['degrees'][k]) for k in ('ell1', 'ell2', 'ELL'))
        stem = stem.replace(wa, '').replace(deg, deg + wa, 1)
    return stem


def run(case):
    set_threads(1)
    try:
        with scratch() as path:
            path = path.resolve()
            why, job = prepare(case, path)
            if job is None:
                return ok(False, why)
            p, home = job['p'], job['home']
            if case['wisdom'] == 'garbage':
                (home/'wisdom/bad').mkdir(parents=True)
            for _ in range(2 if case['wisdom'] else 1):
                done = subprocess.run(
                    [prog_path(), 'p.ini'], cwd=home, capture_output=True,
                    timeout=180, env=job['env'])
                for f in (home/'wisdom').rglob('*'):
                    if f.is_file() and case['wisdom'] == 'garbage':
                        f.write_text('(not a wisdom file\n')
            text = (done.stdout + done.stderr).decode('utf-8', 'replace')
            res, cats = python_side(case, job)
            if isinstance(res, Exception):
                check(done.returncode != 0, f'Python rejects with {res!r} '
                      f"what the program accepts: {job['lines']}")
                return ok(True, 'rejected')
            check(done.returncode == 0, f'program exited with '
                  f'{done.returncode}, Python measures: {text[-600:]}')
            stem = stem_of(case, p)
            written = {f for f in path.rglob('*') if f.is_file()} \
                - job['inputs']
            wisdom = {f for f in written if (home/'wisdom') in f.parents}
            check(bool(wisdom) == bool(case['wisdom']), f'wisdom files '
                  f'{sorted(map(str, wisdom))}, asked for {case["wisdom"]}')
            written -= wisdom
            target = (home/job['out']/stem).resolve()
            check(target in written, f'no file {stem!r} among '
                  f"{sorted(f.name for f in written)} in {job['out']!r}: "
                  f'{text[-300:]}')
            used = target.parent/('parameters_used' + case['tag'])
            check(written == {target, used}, f'the program wrote '
                  f'{sorted(map(str, written))}')
            raw = target.read_text().splitlines()
    finally:
        set_threads(2)
    what = f"program, {case['stat']}"
    head = [ln[1:].strip() for ln in raw if ln.startswith('#')]
    check(raw[:len(head)] == [ln for ln in raw if ln.startswith('#')],
          f'{what}: header is not at the start')
    rows = [ln.split() for ln in raw if not ln.startswith('#')]
    cols = c18.check_columns(case, p, head, what)
    check(all(len(r) == len(cols) for r in rows), f'{what}: uneven table')
    got = {}
    for i, (name, field, part) in enumerate(cols):
        v = np.array([float(r[i]) for r in rows])
        check(len(v) == len(res[field]),
              f'{what}: {len(v)} rows, Python returns {len(res[field])}')
        if part == '':
            got[field] = v.astype(int) if 'modes' in name or 'pairs' in name \
                else v
        elif part == 're':
            got[field] = v + 0j
        else:
            got[field] = got[field].real + 1j*v
    c11.compare(case, res, got, 1., job['data'], job['rand'], what, rtol=2e-8)
    shown = dict(p, boxsize=dict(zip('xyz', case['boxsize'])),
                 ngrid=dict(zip('xyz', case['ngrid'])))
    # three-point statistics switch interlacing off
    shown['interlace'] = ('(?:true|false)' if anystat.points(case) == 3
                          else str(bool(case['interlace'])).lower())
    if job['pad'] is not None:
        # displaced by whole cells from the centred randoms
        least = gen.positions(cats[0]).min(axis=0)
        cell = np.array(case['boxsize'])/np.array(case['ngrid'])
        goal = job['pad']*(np.array(case['boxsize'])
                           if case['shift'] == 'box' else cell)
        cats[0].offset_coords(least - goal)
    c18.describe(dict(case, alignment=job['alignment'] or case['alignment']),
                 shown, cats, head, what)
    factor, conv, alt = c18.header_factor(head, what)
    check(conv == case['norm'], f'{what}: header convention {conv}')
    check(factor == alt.get(conv, 1.), f'{what}: header factor {factor} of '
          f'{alt}')
    return ok(True, case['stat'], f"norm={case['norm']}",
              ('padded' if job['pad'] is not None
               else f"shift={job['alignment']}")
              if anystat.cattype(case) == 'random'
              else 'unshifted', f"box={case['box']}", f"grid={case['grid']}",
              f"split={case['split']}", f"wisdom={case['wisdom']}",
              'wa' if case.get('wa') is not None else 'plain')


CHECKS = [Sub('program', strategy, run, quick=600, thorough=20000, shards=8,
              rule='all ten statistics through parameter and catalogue '
              'files; non-trivial when both interfaces were compared')]
