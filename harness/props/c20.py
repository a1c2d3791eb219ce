"""C20: the program under sanitizers, on valid and malformed inputs."""
import math
import os
import random
import re
import subprocess

from hypothesis import strategies as st

import gen
from core import Sub, Violation, check, ok, prog_path, scratch
from props import c19

TARGETS = ['asan', 'py']
ASSUMPTIONS = [
    'Mesh sizes, numbers of bins and degrees asked for stay small (64 per '
    'axis, 60, 12): larger requests exhaust memory or time by design.',
    'An uncaught exception of the program itself, with its message, counts '
    'as stopping with an error.',
]
BAD = 99
TOKENS = ['abc', 'nan', 'inf', '-inf', '1e999', '1e300', '-1e300', '0', '-0.',
          '1e-300', '1,2', '-', '.', '1e', '+', '"1"', '0.0.1', '1 2',
          '\u00e9', '2147483648', '-2147483649', '99999999999999999999']
VALUES = ['', ' ', 'abc', '-1', '0', '-0', '1', '2', '3', '5', '7', '1e300',
          '-1e300', 'nan', 'inf', '-inf', '1e-300', '1.5', '0.5', '1e999',
          '2147483648', '-2147483649', '99999999999999999999', 'true', 'false',
          'on', 'survey', 'sim', 'random', 'none', 'powspec', '2pcf',
          '2pcf-win', 'bispec', '3pcf', '3pcf-win', '3pcf-win-wa', 'modes',
          'pairs', 'full', 'diag', 'off-diag', 'row', 'particle', 'mesh',
          'mesh-mixed', 'lin', 'log', 'linpad', 'logpad', 'custom', 'centre',
          'pad', 'grid', 'box', 'ngp', 'cic', 'tsc', 'pcs', 'measure',
          'patient', 'x,y,z', 'x,y', 'z,y,x,ws', 'no/such/dir', 'p.ini/x',
          '%s%n%d', '${HOME}', '${', '::', 'a::b', '=', '#', '\\', '\0', '\t']
NAMES = ['catalogue_dir', 'measurement_dir', 'data_catalogue_file',
         'rand_catalogue_file', 'catalogue_columns', 'catalogue_dataset',
         'output_tag', 'boxsize_x', 'boxsize_y', 'boxsize_z', 'ngrid_x',
         'ngrid_y', 'ngrid_z', 'expand', 'cutoff_nyq', 'alignment', 'padscale',
         'padfactor', 'assignment', 'interlace', 'catalogue_type',
         'statistic_type', 'ell1', 'ell2', 'ELL', 'i_wa', 'j_wa', 'form',
         'norm_convention', 'binning', 'bin_min', 'bin_max', 'num_bins',
         'idx_bin', 'fftw_scheme', 'use_fftw_wisdom', 'save_binned_vectors',
         'verbose', 'progbar', 'unknown_name']


def limits(text):
    """Whether the requested sizes are small."""
    for name, val in re.findall(rb'(\w+)\s*=\s*([^\r\n#]*)', text):
        name = name.decode('ascii', 'replace')
        m = re.match(rb'\s*([-+]?[\d.]+(?:[eE][-+]?\d+)?|inf|nan)', val)
        num = 0.
        if m:
            try:
                num = float(m.group(1))
            except ValueError:
                pass
        top = (64 if name.endswith(('ngrid_x', 'ngrid_y', 'ngrid_z')) else
               60 if name.endswith('num_bins') else
               12 if name.endswith(('ell1', 'ell2', 'ELL', 'i_wa', 'j_wa'))
               else None)
        if top is not None and num > top:
            return False
        if name.endswith(('fftw_scheme',)) and b'patient' in val:
            return False
    return True


def execute(home, argv, env):
    """(exit status, output) of the sanitized program; sanitizers checked."""
    env = dict(env, ASAN_OPTIONS=f'exitcode={BAD}:detect_leaks=0:'
               'detect_stack_use_after_return=1',
               UBSAN_OPTIONS=f'exitcode={BAD}:print_stacktrace=1')
    try:
        done = subprocess.run(
            [prog_path('asan'), *argv], cwd=home, capture_output=True,
            stdin=subprocess.DEVNULL, timeout=150, env=env)
    except subprocess.TimeoutExpired as exc:
        raise Violation(f'the program did not end: {argv}') from exc
    out = (done.stdout + done.stderr).decode('utf-8', 'replace')
    bad = re.search(r'runtime error:.*|ERROR: AddressSanitizer.*', out)
    if bad:
        where = re.findall(r'#\d+ 0x\w+ in (.*)', out)[:6]
        raise Violation(f'memory error or undefined behaviour: '
                        f'{bad.group(0)} at {where}')
    check(done.returncode != BAD, f'sanitizer report: {out[-800:]}')
    if done.returncode < 0:
        check(done.returncode == -6 and 'terminate called after throwing'
              in out, f'killed by signal {-done.returncode}: {out[-800:]}')
    check(done.returncode == 0 or len(out) > 0,
          f'stopped with {done.returncode} without a message')
    return done.returncode, out


# -- valid runs -----------------------------------------------------------------

def run_valid(case):
    with scratch() as path:
        path = path.resolve()
        if case['wisdom'] == 'garbage':
            case['wisdom'] = ''
        why, job = c19.prepare(case, path)
        if job is None:
            return ok(False, why)
        code, out = execute(job['home'], ['p.ini'], job['env'])
        target = (job['home']/job['out']/c19.stem_of(case, job['p'])).resolve()
        check(target.is_file() == (code == 0),
              f'exit status {code}, measurement file written: '
              f'{target.is_file()}: {out[-300:]}')
    return ok(code == 0, case['stat'], case['assignment'])


# -- catalogue files ---------------------------------------------------------------

@st.composite
def cat_strategy(draw):
    case = draw(c19.strategy())
    case.update(wisdom='', grid='given', box='given', norm='none', env=[],
                split=1, threads=1, text=[t for t in case['text'] if t in (
                    'comment', 'tab', 'wide', 'noeol')])
    case['muts'] = draw(st.lists(st.fixed_dictionaries({
        'file': gen.scalars('data', 'rand'),
        'op': gen.scalars('token', 'token', 'drop', 'cut', 'truncate', 'blank',
                          'comment', 'append', 'empty', 'missing', 'dir',
                          'byte', 'comments only', 'swap', 'crlf'),
        'at': st.floats(0, 0.999), 'arg': st.integers(0, 10**6)}),
        min_size=1, max_size=2))
    return case


def mutate_catalogue(path, muts):
    for m in muts:
        op, arg = m['op'], m['arg']
        if path.is_dir() or not path.exists():
            return
        raw = path.read_bytes()
        lines = raw.decode('utf-8', 'replace').split('\n')
        i = int(m['at']*len(lines))
        words = lines[i].split()
        if op in ('token', 'drop', 'cut', 'swap') and not words:
            i = 0
            words = lines[0].split() or ['1']
        j = arg % max(len(words), 1)
        if op == 'token':
            words[j] = TOKENS[arg % len(TOKENS)]
            lines[i] = ' '.join(words)
        elif op == 'drop':
            del words[j]
            lines[i] = ' '.join(words)
        elif op == 'cut':
            lines[i] = lines[i][:arg % (len(lines[i]) + 1)]
        elif op == 'truncate':
            path.write_bytes(raw[:int(m['at']*len(raw))])
            continue
        elif op == 'blank':
            lines.insert(i, ['', '  ', '\t', ' \t  '][arg % 4])
        elif op == 'comment':
            lines.insert(i, ['#', '# 1 2 3', ' # note', '\t#x', '#\t1'][
                arg % 5])
        elif op == 'append':
            lines[i] += ['', ' 5', ' abc', ' nan', '\t', ' # note'][arg % 6]
        elif op == 'swap':
            lines[i] = ' '.join(reversed(words))
        elif op == 'crlf':
            lines = [ln + '\r' for ln in lines]
        elif op == 'comments only':
            lines = ['# ' + ln for ln in lines]
        elif op == 'byte':
            k = int(m['at']*len(raw))
            path.write_bytes(raw[:k] + bytes([arg % 256]) + raw[k + 1:])
            continue
        elif op == 'empty':
            path.write_bytes(b'')
            continue
        elif op in ('missing', 'dir'):
            path.unlink()
            if op == 'dir':
                path.mkdir()
            return
        path.write_bytes('\n'.join(lines).encode())


FLOAT = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')


def readable(path, needed):
    """True, False, or None when the format does not say."""
    if not path.is_file():
        return False
    text = path.read_bytes().decode('utf-8', 'replace')
    if re.search('[^\\t\\n\\r -~]', text):
        return None
    rows, sure = 0, True
    for line in text.split('\n'):
        if not line.strip() or line.strip().startswith('#'):
            continue
        rows += 1
        open_ = False
        for i, word in enumerate(line.split()):
            if i >= needed:
                break
            m = FLOAT.fullmatch(word)
            if not m:
                if not FLOAT.match(word):
                    return False
                open_ = True     # begins with a number
                break
            v = abs(float(word))
            if v > 1e7 or 0 < v < 1e-7:
                sure = False     # places particles out of any box
        if open_:
            sure = False
        elif len(line.split()) < needed:
            return False
    if rows == 0:
        return False
    return True if sure else None


def table(path):
    return [ln for ln in path.read_text().splitlines()
            if not ln.startswith('#')]


def run_cat(case):
    with scratch() as path:
        path = path.resolve()
        why, job = c19.prepare(case, path)
        if job is None:
            return ok(False, why)
        home = job['home']
        target = (home/job['out']/c19.stem_of(case, job['p'])).resolve()
        base, _ = execute(home, ['p.ini'], job['env'])
        before = None
        if target.is_file():
            before = table(target)
            target.unlink()
        names = job['names']
        needed = 1 + max(i for i, n in enumerate(names)
                         if n in ('x', 'y', 'z', 'nz', 'ws', 'wc'))
        states, same = [], True
        touched = False
        for name, files in job['files'].items():
            file = job['catdir']/files[0]
            old = file.read_text().split('\n')
            muts = [m for m in case['muts'] if m['file'] == name
                    or len(job['files']) == 1]
            touched |= bool(muts)
            mutate_catalogue(file, muts)
            states.append(readable(file, needed))
            if states[-1]:
                rows = [[ln.split()[:needed] for ln in t if ln.strip()
                         and ln.strip()[0] != '#'] for t in (
                             old, file.read_text().split('\n'))]
                same &= rows[0] == rows[1]
        code, out = execute(home, ['p.ini'], job['env'])
        desc = [m['op'] for m in case['muts']]
        if False in states:
            check(code != 0, f'unreadable catalogue file was accepted: {desc}')
        elif None not in states and same:
            check(code == base, f'a change of layout changed the exit status '
                  f'from {base} to {code}: {desc}: {out[-300:]}')
            if code == 0:
                check(table(target) == before, f'a change of layout changed '
                      f'the measurement: {desc}')
        check(target.is_file() == (code == 0),
              f'exit status {code}, measurement file written: '
              f'{target.is_file()}')
    state = 'unreadable' if False in states else 'open' if None in states \
        else 'same' if same else 'readable'
    return ok(touched, state, *desc)


# -- parameter files ---------------------------------------------------------------

@st.composite
def par_strategy(draw):
    case = draw(c19.strategy())
    case.update(wisdom=draw(gen.scalars('', '', '', 'dir')), grid='given',
                verbose=0)
    case['muts'] = draw(st.lists(st.fixed_dictionaries({
        'op': gen.scalars('value', 'value', 'value', 'set', 'set', 'delete',
                          'duplicate', 'truncate', 'byte', 'insert', 'long',
                          'join', 'crlf', 'random'),
        'at': st.floats(0, 0.999), 'arg': st.integers(0, 10**6),
        'text': st.text(max_size=12)}), min_size=1, max_size=4))
    return case


def mutate_parameters(raw, muts):
    for m in muts:
        op, arg = m['op'], m['arg']
        lines = raw.split(b'\n')
        i = int(m['at']*len(lines))
        if op in ('value', 'set', 'long', 'random'):
            val = VALUES[arg % len(VALUES)].encode()
            if op == 'long':
                val = b'7x/'[arg % 3:][:1]*[30, 200, 1000, 1100, 5000][arg % 5]
            if op == 'random':
                val = m['text'].encode('utf-8', 'surrogatepass')
            if op == 'value':
                name = lines[i].split(b'=')[0].strip()
            else:
                name = NAMES[int(m['at']*len(NAMES))].encode()
                lines = [ln for ln in lines
                         if ln.split(b'=')[0].strip() != name]
            i = min(i, len(lines) - 1)
            if op == 'value':
                lines[i] = name + b' = ' + val
            else:
                lines.insert(i, name + b' = ' + val)
        elif op == 'delete':
            del lines[i]
        elif op == 'duplicate':
            lines.append(lines[i])
        elif op == 'truncate':
            raw = raw[:int(m['at']*len(raw))]
            continue
        elif op == 'byte':
            k = int(m['at']*len(raw))
            raw = raw[:k] + bytes([arg % 256]) + raw[k + 1:]
            continue
        elif op == 'insert':
            lines.insert(i, m['text'].encode('utf-8', 'surrogatepass'))
        elif op == 'join' and i + 1 < len(lines):
            lines[i:i + 2] = [lines[i] + lines[i + 1]]
        elif op == 'crlf':
            lines = [ln + b'\r' for ln in lines]
        raw = b'\n'.join(lines)
    return raw


def run_par(case):
    with scratch() as path:
        path = path.resolve()
        why, job = c19.prepare(case, path)
        if job is None:
            return ok(False, why)
        home = job['home']
        raw = mutate_parameters((home/'p.ini').read_bytes(), case['muts'])
        if not limits(raw):
            return ok(False, 'large')
        (home/'p.ini').write_bytes(raw)
        if b'cutoff_nyq' in raw:     # decides on the grid cell numbers
            return ok(False, 'cutoff')
        # nothing may be written outside the scratch directory
        for name in (b'measurement_dir', b'use_fftw_wisdom',
                     b'save_binned_vectors', b'output_tag'):
            for val in re.findall(name + rb'[ \t]*=[ \t]*([^\r\n]*)', raw):
                if b'..' in val or b'$' in val or val.startswith(b'/') and \
                        not val.startswith(str(path).encode()):
                    return ok(False, 'outside')
        code, out = execute(home, ['p.ini'], job['env'])
    desc = sorted({m['op'] for m in case['muts']})
    return ok(True, f'exit={"0" if code == 0 else "error"}', *desc)


# -- arguments ---------------------------------------------------------------------

@st.composite
def arg_strategy(draw):
    case = draw(c19.strategy())
    case.update(wisdom='', env=[])
    case['argv'] = draw(st.one_of(
        gen.scalars([], ['-h'], ['--help'], ['-V'], ['--version'],
                    ['p.ini', '-h'], ['p.ini', '--version'], ['missing.ini'],
                    ['.'], [''], ['p.ini'], ['p.ini', 'other'],
                    ['p.ini', '-x'], ['-x', 'p.ini'], ['-x'], ['empty.ini'],
                    ['a'*5000], ['p.ini/']),
        st.lists(st.text(st.characters(min_codepoint=33, max_codepoint=126,
                                       blacklist_characters='/'),
                         max_size=6), max_size=3)))
    case['vars'] = draw(st.dictionaries(
        gen.scalars('TRV_OVERRIDE_VERBOSE', 'TRV_OVERRIDE_FFTW_SCHEME',
                    'TRV_OVERRIDE_PROGBAR', 'TRV_OVERRIDE_OUTPUT_TAG',
                    'TRV_OVERRIDE_USE_FFTW_WISDOM'),
        gen.scalars('', 'abc', '-1', '1e9', 'no/such', '%s%n', 'x'*2000,
                    'measure', 'true', '30'), max_size=2))
    return case


def run_arg(case):
    with scratch() as path:
        path = path.resolve()
        why, job = c19.prepare(case, path)
        if job is None:
            return ok(False, why)
        (job['home']/'empty.ini').write_text('')
        argv = case['argv']
        code, out = execute(job['home'], argv, dict(job['env'],
                                                    **case['vars']))
        first = argv[:1]
        target = (job['home']/job['out']/c19.stem_of(
            case, job['p'])).resolve()
        asked = [a for a in argv if a in ('-h', '--help', '-V', '--version')]
        if asked and argv[0] in ('-h', '--help', '-V', '--version'):
            check(code == 0 and len(out) > 50, f'{argv}: exit status {code}')
        elif not argv or not os.path.isfile(job['home']/first[0]):
            check(code != 0, f'{argv} was accepted')
        if code == 0 and argv == ['p.ini'] and not case['vars']:
            check(target.is_file(), f'no measurement: {out[-300:]}')
        if asked and code == 0:
            check(not target.is_file(), f'{argv} measured')
    return ok(True, ' '.join(argv)[:20], f"vars={len(case['vars'])}",
              f'exit={"0" if code == 0 else "error"}')


CHECKS = [
    Sub('valid', c19.strategy, run_valid, quick=100, thorough=8000, shards=8,
        rule='runs of all ten statistics under AddressSanitizer and UBSan; '
        'non-trivial when measured'),
    Sub('catalogues', cat_strategy, run_cat, quick=240, thorough=20000,
        shards=8, rule='structured mutations of catalogue files; non-trivial '
        'when a file of the run was mutated'),
    Sub('parameters', par_strategy, run_par, quick=300, thorough=30000,
        shards=8, rule='structured and byte mutations of parameter files; '
        'non-trivial when run'),
    Sub('arguments', arg_strategy, run_arg, quick=80, thorough=4000,
        shards=4, rule='command lines and overriding environment variables'),
]
