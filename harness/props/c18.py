"""C18: saved measurements."""
import copy
import os
import re

import numpy as np
from hypothesis import strategies as st

import gen
import meas
from core import Sub, Violation, check, close, equal, ok, scratch, set_threads
from props import anystat

TARGETS = ['py']
ASSUMPTIONS = [
    'Multipole degrees have a single digit, as file names join them.',
    'Tags and directories contain no path separators inside a tag; '
    'measurement directories exist.',
]
TAGS = [None, '', '_run1', '_z0.5', '.a', '_v1.2.3', '_x.txt', '_x.npz', '-b c',
        '_é', '_%d', '_{0}', '_#', '_k0.01-0.2', '_A', '_a']
DIRS = [None, '', '.', 'out', 'out/', 'out.v1', 'out/deep dir', 'absolute']


@st.composite
def step(draw):
    return {'job': draw(st.integers(0, 2)),
            'tag': draw(st.one_of(gen.scalars(*TAGS), st.text(
                st.characters(min_codepoint=33, max_codepoint=126,
                              blacklist_characters='/'), max_size=8))),
            'dir': draw(gen.scalars(*DIRS)),
            'fmt': draw(gen.scalars('.txt', '.txt', '.npz', '.TXT', '.NPZ',
                                    False, '.csv'))}


@st.composite
def strategy(draw):
    first = draw(anystat.cases(
        norms=('none', 'particle', 'mesh', 'mesh-mixed'), nd=15, nr=25,
        max_mesh=300))
    jobs = [first]
    for _ in range(draw(st.integers(0, 2))):
        job = copy.deepcopy(first)
        what = draw(gen.scalars('degree', 'form', 'norm', 'wa', 'stat',
                                'index'))
        three = anystat.points(job) == 3
        if what == 'degree' or not three and what != 'stat':
            if three:
                job['deg'] = job['deg'][:0] + list(draw(gen.scalars(
                    [1, 1, 0], [0, 0, 0], [1, 0, 1], [0, 1, 1], [2, 0, 2],
                    [0, 2, 2], [1, 1, 2])))
            else:
                job['ell'] = draw(st.integers(0, 4))
        elif what == 'form':
            job['form'] = draw(gen.scalars(*anystat.FORMS))
        elif what == 'index':
            job['pick'] = draw(st.integers(-3, 3))
        elif what == 'norm':
            job['norm'] = draw(gen.scalars('none', 'particle', 'mesh'))
        elif what == 'wa' and job['stat'] == '3pcf-window':
            job['wa'] = draw(gen.scalars(None, [0, 0], [1, 0], [0, 1], [2, 1]))
        elif what == 'stat':
            pair = {'2pcf-survey': 'powspec-survey', '2pcf-box': 'powspec-box',
                    '3pcf-survey': 'bispec-survey', '3pcf-box': 'bispec-box'}
            pair.update({v: k for k, v in pair.items()})
            job['stat'] = pair.get(job['stat'], job['stat'])
        jobs.append(job)
    return {'jobs': jobs,
            'steps': draw(st.lists(step(), min_size=1, max_size=5)),
            'collide': draw(st.booleans())}


def expected_name(c, p):
    """File name without extension, from the documentation."""
    base = {'powspec': 'pk', '2pcf': 'xi', '2pcf-win': 'xiw', 'bispec': 'bk',
            '3pcf': 'zeta', '3pcf-win': 'zetaw'}[anystat.STATS[c['stat']][2]]
    tag = p['tags']['output'] or ''
    if anystat.points(c) == 2:
        return f"{base}{c['ell']}{tag}"
    d = p['degrees']
    form = {'diag': 'diag', 'full': 'full', 'row': 'row',
            'off-diag': 'offdiag'}[p['form']]
    if p['form'] in ('row', 'off-diag'):
        form += str(p['idx_bin'])
    wa = ''
    if c.get('wa') is not None:
        wa = '_wa' + ''.join(map(str, c['wa']))
    return f"{base}{d['ell1']}{d['ell2']}{d['ELL']}_{form}{wa}{tag}"


def column_names(c, p):
    """(printed name, result field, part) of every column."""
    four = anystat.space(c) == 'fourier'
    x, n = ('k', 'nmodes') if four else ('r', 'npairs')
    out = []
    if anystat.points(c) == 2:
        out += [(f'{x}_cen', f'{x}bin', ''), (f'{x}_eff', f'{x}eff', ''),
                (n, n, '')]
        name = ('pk' if four else 'xi') + str(c['ell'])
        fields = [('_raw', 'pk_raw'), ('_shot', 'pk_shot')] if four else \
            [('', 'xi')]
    else:
        for i in '12':
            out += [(f'{x}{i}_cen', f'{x}{i}_bin', ''),
                    (f'{x}{i}_eff', f'{x}{i}_eff', ''),
                    (f'{n}_{i}', f'{n}_{i}', '')]
        base = 'bk' if four else 'zeta'
        d = p['degrees']
        name = f"{base}{d['ell1']}{d['ell2']}{d['ELL']}"
        fields = [('_raw', f'{base}_raw'), ('_shot', f'{base}_shot')]
    for suffix, field in fields:
        out += [(f'Re{{{name}{suffix}}}', field, 're'),
                (f'Im{{{name}{suffix}}}', field, 'im')]
    return out


NUM = r'([-+]?(?:\d[\d.]*(?:e[-+]?\d+)?|nan|inf))'


def header_factor(lines, what):
    """(factor, convention, alternatives) as printed."""
    text = '\n'.join(lines)
    m = re.search(r'Normalisation factor: ' + NUM + r' \(([\w-]+)\)', text)
    check(m, f'{what}: the header states no normalisation: {text!r}')
    alt = {k: float(v) for v, k in re.findall(
        NUM + r' \((particle|mesh|mesh-mixed)(?:; n/a)?\)',
        text.split('alternatives', 1)[-1])}
    return float(m.group(1)), m.group(2), alt


def describe(c, p, cats, lines, what):
    """The header describes the run."""
    text = '\n'.join(lines)

    def numbers(label):
        rows = [ln for ln in lines if ln.startswith(label)]
        check(len(rows) == 1, f'{what}: {len(rows)} header lines {label!r} in '
              f'{text!r}')
        return [float(v) for v in re.findall(NUM, rows[0][len(label):])]

    close(np.array(numbers('Box size')), np.array(
        [p['boxsize'][a] for a in 'xyz'], float), f'{what}: header box size',
        rtol=0, atol=6e-4)
    check(numbers('Mesh number') == [p['ngrid'][a] for a in 'xyz'],
          f'{what}: header mesh number in {text!r}')
    check(any(ln == f"Box alignment: {c['alignment']}" for ln in lines),
          f'{what}: header alignment in {text!r}')
    inter = p['interlace']
    check(any(re.fullmatch(
        f"Mesh assignment and interlacing: {c['assignment']}, "
        f"({inter}|False)", ln) for ln in lines),
        f'{what}: header assignment in {text!r}')
    if anystat.cattype(c) == 'survey':
        names = [('Data catalogue', 'Data-source'),
                 ('Random catalogue', 'Random-source')]
    else:
        names = [('Catalogue', 'Catalogue')]
    for cat, (name, src) in zip(cats, names):
        size = numbers(f'{name} size')
        ws, wc = np.array(cat['ws']), np.array(cat['wc'])
        check(len(size) == 3 and size[0] == len(ws),
              f'{what}: header catalogue size {size}')
        close(np.array(size[1:]), np.array([np.sum(ws*wc), np.sum(ws)]),
              f'{what}: header catalogue weights', rtol=1e-12, atol=6e-4)
        pos = gen.positions(cat)
        ext = numbers(f'{src} particle extents')
        close(np.array(ext), np.stack([pos.min(0), pos.max(0)], 1).ravel(),
              f'{what}: header particle extents', rtol=1e-12, atol=6e-4)


def check_columns(c, p, lines, what):
    cols = column_names(c, p)
    want = ', '.join(f'[{i}] {n}' for i, (n, _, _) in enumerate(cols))
    check(lines[-1] == want,
          f'{what}: column names {lines[-1]!r}, not {want!r}')
    return cols


def check_text(c, p, path, res, cats, what):
    with open(path, encoding='utf-8') as f:
        raw = f.read().splitlines()
    lines = [ln[2:] for ln in raw if ln.startswith('# ')]
    rows = [ln.split('\t') for ln in raw if not ln.startswith('#')]
    check(raw[:len(lines)] == ['# ' + ln for ln in lines],
          f'{what}: header is not at the start')
    cols = check_columns(c, p, lines, what)
    check(all(len(r) == len(cols) for r in rows),
          f'{what}: rows of {set(map(len, rows))} columns, not {len(cols)}')
    for i, (name, field, part) in enumerate(cols):
        ref = np.asarray(res[field])
        ref = {'re': ref.real, 'im': ref.imag, '': ref}[part]
        check(len(rows) == len(ref),
              f'{what}: {len(rows)} rows, not {len(ref)}')
        got = np.array([float(r[i]) for r in rows])
        if 'modes' in name or 'pairs' in name:
            equal(got, ref.astype(float), f'{what}: column {name}')
        else:
            same = np.isnan(got) & np.isnan(ref)
            check(np.array_equal(np.isnan(got), np.isnan(ref)),
                  f'{what}: column {name}: {got}, returned {ref}')
            close(got[~same], ref[~same], f'{what}: column {name}',
                  rtol=6e-10)
    describe(c, p, cats, lines, what)
    return lines


def check_archive(c, p, path, res, cats, what):
    with np.load(path, allow_pickle=False) as z:
        got = {k: z[k] for k in z.files}
    check(set(got) == set(res) | {'header'},
          f'{what}: archive holds {sorted(got)}, results {sorted(res)}')
    for k in res:
        check(got[k].dtype == np.asarray(res[k]).dtype and np.array_equal(
            got[k], res[k], equal_nan=True),
            f'{what}: archive {k} {got[k]}, returned {res[k]}')
    lines = str(got['header']).split('\n')
    check_columns(c, p, lines, what)
    describe(c, p, cats, lines, what)
    return lines


def run(case):
    from triumvirate.parameters import ParameterSet
    set_threads(1)
    home = os.getcwd()
    labels = set()
    try:
        for c in case['jobs']:
            if c['norm'] == 'mesh-mixed' and c['stat'] not in (
                    'powspec-survey', '2pcf-survey'):
                c['norm'] = 'mesh'
        made = [anystat.edges(c) for c in case['jobs']]
        cols = [anystat.columns(c) for c in case['jobs']]
        plain = {}
        saved = 0
        with scratch() as path:
            path = path.resolve()
            model = {}
            cwd = path/'cwd'
            cwd.mkdir()
            os.chdir(cwd)
            for d in ('out', 'out.v1', 'out/deep dir'):
                (cwd/d).mkdir(parents=True, exist_ok=True)
            (path/'elsewhere').mkdir()
            for s in case['steps']:
                i = s['job'] % len(case['jobs'])
                c, (data, rand) = case['jobs'][i], cols[i]
                tag = case['steps'][0]['tag'] if case['collide'] else s['tag']
                where = case['steps'][0]['dir'] if case['collide'] \
                    else s['dir']
                if where == 'absolute':
                    where = str(path/'elsewhere')
                p = anystat.params(c, made[i])
                p['tags'] = {'output': tag}
                p['directories'] = {'catalogues': None,
                                    'measurements': where}
                fmt = s['fmt']
                what = f"{c['stat']} saved as {fmt!r} with tag {tag!r} in " \
                    f"{where!r}"
                pset = meas.call(ParameterSet, param_dict=copy.deepcopy(p))
                cats = anystat.cats(c, data, rand)
                try:
                    res = anystat.measure(c, data, rand, made[i],
                                          paramset=pset, catalogues=cats,
                                          save=fmt)
                except ValueError as exc:
                    if fmt != '.csv':
                        raise Violation(f'{what}: {exc}') from exc
                    res = None
                except RuntimeError:
                    if c['norm'] != 'mesh-mixed':
                        raise
                    return ok(False, 'undefined-norm')
                check((res is None) == (fmt == '.csv'),
                      f'{what}: unknown format was accepted')
                if res is not None:
                    res = {k: v for k, v in res.items() if k != 'header'}
                if fmt and fmt != '.csv':
                    file = (cwd/(where or '')/(
                        expected_name(c, p) + fmt.lower())).resolve()
                    old = model.get(file)
                    model[file] = (c, p, res, cats, what)
                    saved += 1
                    labels |= {'overwritten' if old else 'new', c['stat'],
                               fmt.lower()}
                    if old and old[0] is not c:
                        a, b = old[0], c
                        check(all(a.get(k) == b.get(k) for k in (
                            'stat', 'ell', 'deg', 'form', 'wa')),
                            'two configurations share a name')
                there = sorted(f for f in path.rglob('*') if f.is_file())
                check(there == sorted(model),
                      f'{what}: files are {[str(f) for f in there]}, expected '
                      f'{[str(f) for f in sorted(model)]}')
            heads = {}
            for file, (c, p, res, cats, what) in model.items():
                reader = check_text if file.suffix == '.txt' else \
                    check_archive
                lines = reader(c, p, file, res, cats, what)
                heads[file] = lines
                # the normalisation stated is the one applied
                i = next(k for k, x in enumerate(case['jobs']) if x is c)
                if i not in plain:
                    q = copy.deepcopy(p)
                    q['norm_convention'] = 'none'
                    plain[i] = anystat.measure(
                        c, *cols[i], made[i],
                        paramset=meas.call(ParameterSet, param_dict=q))
                factor, conv, alt = header_factor(lines, what)
                check(conv == c['norm'], f'{what}: header states {conv!r} '
                      f'normalisation, not {c["norm"]!r}')
                check(set(alt) == {'particle', 'mesh', 'mesh-mixed'},
                      f'{what}: header alternatives {alt}')
                check(factor == alt.get(conv, 1.), f'{what}: header factor '
                      f'{factor} with alternatives {alt}')
                for k in anystat.value_keys(res):
                    good = np.isfinite(np.asarray(res[k]))
                    ref = np.asarray(plain[i][k])*factor
                    mag = np.max(np.abs(ref[good]), initial=0.)
                    close(np.asarray(res[k])[good], ref[good],
                          f'{what}: {k} and the stated normalisation {factor}',
                          rtol=2e-9, scale=mag)
    finally:
        os.chdir(home)
        set_threads(2)
    return ok(saved > 0, *sorted(labels))


CHECKS = [Sub('saves', strategy, run, quick=600, thorough=8000, shards=8,
              rule='at least one measurement was saved and read back')]
