"""C30: logs and progress bars tell what happens, once and in order."""
import builtins
import contextlib
import ctypes
import io
import logging
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import warnings

import numpy as np
from hypothesis import strategies as st

import drv
import gen
from core import Sub, check, ok, prog_path, scratch, set_threads
from props import anystat, c19

TARGETS = ['py', 'prog', 'drv']
ASSUMPTIONS = [
    'Lines of log are compared without their times; the times only have to '
    'be well formed and in order.',
    'Sizes of memory and other figures measured while running are not '
    'compared between runs.',
    'Colours are used where TERM names a colour terminal and '
    'TRV_INTERACTIVE is set (in C++: to true, yes, 1 or on).',
    'A bar interval above the steps of its tasks is generated where single '
    'updates must be told apart.',
]
LEVELS = {'NSET': 0, 'DBUG': 10, 'STAT': 20, 'INFO': 30, 'WARN': 40,
          'ERRO': 50}
LIBC = ctypes.CDLL(None)
STAMP = r'\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \(\+(\d{2,}):(\d\d):(\d\d)\)'
ANSI = re.compile('\033\\[[0-9;]*m')


def capture(act):
    """(result or exception, text) of an action at the descriptor level."""
    sys.stdout.flush()
    LIBC.fflush(None)
    saved = os.dup(1)
    with tempfile.TemporaryFile(dir=os.environ['TRV_SCRATCH']) as f:
        os.dup2(f.fileno(), 1)
        try:
            res = act()
        except Exception as exc:
            res = exc
        finally:
            sys.stdout.flush()
            LIBC.fflush(None)
            os.dup2(saved, 1)
            os.close(saved)
        f.seek(0)
        return res, f.read().decode('utf-8', 'replace')


@contextlib.contextmanager
def environment(term, interactive):
    names = ('TERM', 'TRV_INTERACTIVE')
    saved = {k: os.environ.get(k) for k in names}
    try:
        for k, v in zip(names, (term, interactive)):
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        yield
    finally:
        for k, v in saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def seconds(groups):
    h, m, s = map(int, groups)
    check(m < 60 and s < 60, f'elapsed time {groups}')
    return 3600*h + 60*m + s


ENV = {'term': gen.scalars('xterm-256color', 'dumb', None, 'xterm-color'),
       'inter': gen.scalars(None, 'true', 'yes', '1', 'on')}
TEXT = st.text('ab {}%\\"\'é#<>[]()-:', max_size=12)


# -- the Python logger --------------------------------------------------------

PYLEVELS = {'debug': (10, 'DBUG'), 'stat': (15, 'STAT'), 'info': (20, 'INFO'),
            'warning': (30, 'WARN'), 'error': (40, 'ERRO'),
            'critical': (50, 'FATAL')}
PYCOLOURS = {'DBUG': '36', 'STAT': '34', 'INFO': '32', 'WARN': '33',
             'ERRO': '31', 'FATAL': '37;41'}


@st.composite
def py_step(draw):
    kind = draw(gen.scalars('log', 'log', 'log', 'warn', 'setup', 'env',
                            'later'))
    if kind == 'setup':
        return {'op': kind, 'level': draw(gen.scalars(
            10, 15, 15, 20, 30, 40, 0, 12, 60))}
    if kind == 'env':
        return {'op': kind, **{k: draw(v) for k, v in ENV.items()}}
    if kind == 'later':
        return {'op': kind, 'by': draw(st.one_of(
            st.integers(0, 400000),
            gen.scalars(59, 60, 3599, 3600, 86400, 360000)))}
    if kind == 'warn':
        return {'op': kind, 'text': draw(TEXT),
                'file': draw(gen.scalars('a.py', '/x/{b}.py', 'sp ace.py',
                                         '{}.py', '%s.py', 'é')),
                'line': draw(st.integers(1, 9999)),
                'category': draw(gen.scalars(
                    'UserWarning', 'RuntimeWarning', 'DeprecationWarning'))}
    return {'op': kind, 'level': draw(gen.scalars(*PYLEVELS)),
            'text': draw(TEXT),
            'args': draw(st.lists(st.one_of(
                st.integers(-5, 5), TEXT), max_size=2)),
            'state': draw(gen.scalars('absent', True, False, 'start', 'end',
                                      'START', 'End', 'other', ''))}


@st.composite
def py_strategy(draw):
    return {'level': draw(gen.scalars(15, 10, 20, 30)),
            'steps': draw(st.lists(py_step(), min_size=1, max_size=10))}


def run_python(case):
    from triumvirate.logger import setup_logger
    root = logging.getLogger()
    saved = (root.handlers[:], root.level, warnings.formatwarning,
             warnings.showwarning)
    out, want = io.StringIO(), []
    env = {'term': None, 'inter': None}
    limit = case['level']
    with environment(None, None), warnings.catch_warnings():
        warnings.simplefilter('always')
        try:
            with contextlib.redirect_stdout(out):
                root.handlers[:] = []
                logger = setup_logger(limit)
                real = time.time
                skip = 0
                for s in case['steps']:
                    if s['op'] == 'setup':
                        limit = s['level']
                        logger = setup_logger(limit)
                        continue
                    if s['op'] == 'env':
                        env = s
                        for k, v in (('TERM', s['term']),
                                     ('TRV_INTERACTIVE', s['inter'])):
                            os.environ.pop(k, None)
                            if v is not None:
                                os.environ[k] = v
                        continue
                    if s['op'] == 'later':
                        skip += s['by']
                        continue
                    colour = 'color' in (env['term'] or '') \
                        and env['inter'] is not None
                    if s['op'] == 'warn':
                        warnings.warn_explicit(
                            s['text'], getattr(builtins, s['category']),
                            s['file'], s['line'])
                        if 30 >= (limit or 0):
                            want.append((
                                'WARN', f"{s['text']} ({s['file']}:"
                                f"{s['line']}:{s['category']})", colour,
                                None))
                        continue
                    num, name = PYLEVELS[s['level']]
                    text = s['text'].replace('%', '%%') if s['args'] \
                        else s['text']
                    text += ' %s'*len(s['args'])
                    kw = {} if s['state'] == 'absent' else {
                        'cpp_state': s['state']}
                    # a record made some time later
                    factory = logging.getLogRecordFactory()

                    def made(*a, **k):
                        rec = factory(*a, **k)
                        rec.created += skip
                        return rec
                    logging.setLogRecordFactory(made)
                    try:
                        getattr(logger, s['level'])(text, *s['args'], **kw)
                    finally:
                        logging.setLogRecordFactory(factory)
                    if num < limit:
                        continue
                    mesg = s['text'] + ''.join(f' {a}' for a in s['args'])
                    st_ = s['state']
                    low = st_.lower() if isinstance(st_, str) else ''
                    if low in ('start', 'end'):
                        mesg += {'start': ' (entering C++)',
                                 'end': ' (exited C++)'}[low]
                    elif st_ and st_ != 'absent':
                        mesg += ' (in C++)'
                    want.append((name, mesg, colour, real() + skip))
        finally:
            logging.captureWarnings(False)
            root.handlers[:] = saved[0]
            root.setLevel(saved[1])
            warnings.formatwarning = saved[2]
            warnings.showwarning = saved[3]
    lines = out.getvalue().split('\n')
    check(lines[-1] == '', f'no end of line after {lines[-1]!r}')
    lines = lines[:-1]
    check(len(lines) == len(want), f'{len(lines)} lines {lines} of log '
          f'for {len(want)} messages {[w[:2] for w in want]}')
    base = None
    for ln, (name, mesg, colour, when) in zip(lines, want):
        m = re.fullmatch(r'\[' + STAMP + r' (\S+)\] (.*)', ln, re.S)
        check(m, f'line of log {ln!r}')
        tag = m[4]
        if colour:
            check(re.fullmatch(
                '\033\\[[01];' + re.escape(PYCOLOURS[name]) + 'm' + name
                + re.escape('\033[0m'), tag), f'level {tag!r} of {name}')
        else:
            check(tag == name, f'level {tag!r}, not {name} of {ln!r}')
        check(m[5] == mesg, f'message {m[5]!r}, not {mesg!r}')
        if when is not None:
            # all records are as old as the time since they began
            start = when - seconds(m.groups()[:3])
            base = start if base is None else base
            check(abs(start - base) < 3., f'elapsed times of {lines}: off '
                  f'by {start - base} s')
    return ok(len(want) > 0, 'colour' if any(w[2] for w in want) else 'plain',
              *sorted({w[0] for w in want}))


# -- the C++ logger -----------------------------------------------------------

@st.composite
def cpp_strategy(draw):
    entry = st.tuples(gen.scalars(0, 0, 1, 2),
                      gen.scalars(10, 20, 30, 40, 50),
                      TEXT.filter(lambda t: '\0' not in t),
                      st.integers(-99, 99)).map(list)
    return {'limit': draw(gen.scalars(0, 10, 20, 30, 40, 50, 60, 25, 1)),
            'entries': draw(st.lists(entry, min_size=1, max_size=8)),
            'long': draw(gen.scalars(0, 0, 100, 3000)),
            **{k: draw(v) for k, v in ENV.items()}}


COLOURS = {'DBUG': '36', 'STAT': '34', 'INFO': '32', 'WARN': '33',
           'ERRO': '31'}


def run_cpp(case):
    entries = [list(e) for e in case['entries']]
    entries[0][2] += 'x'*case['long']
    drv.lib()
    with environment(case['term'], case['inter']):
        res, text = capture(lambda: drv.log(case['limit'], entries))
    check(not isinstance(res, Exception), f'logging raised {res!r}')
    colour = 'color' in (case['term'] or '') and case['inter'] in (
        'true', 'yes', '1', 'on')
    want = [e for e in entries if e[1] >= case['limit']]
    lines = text.split('\n')
    check(lines.pop() == '', f'no end of line in {text!r}')
    check(len(lines) == len(want), f'{len(lines)} lines of log for '
          f'{len(want)} messages at level {case["limit"]}: {text!r}')
    names = {v: k for k, v in LEVELS.items()}
    last = 0
    for ln, e in zip(lines, want):
        m = re.fullmatch(r'\[' + STAMP + r' (\S+)( C\+\+)?\] (.*)', ln)
        check(m, f'line of log {ln!r}')
        tag = names[e[1]]
        if colour:
            check(re.fullmatch('\033\\[[01];' + COLOURS[tag] + 'm' + tag
                               + re.escape('\033[0m'), m[4]),
                  f'level {m[4]!r} of {tag}')
        else:
            check(m[4] == tag, f'level {m[4]!r}, not {tag}')
        check(m[6] == f'{e[2]}|{e[3]}', f'message {m[6]!r} of {e}')
        now = seconds(m.groups()[:3])
        check(now >= last, f'elapsed times go back in {text!r}')
        last = now
    return ok(len(want) > 0, 'colour' if colour else 'plain',
              f"limit={case['limit']}")


# -- progress bars ------------------------------------------------------------

BAR = re.compile(r'\[' + STAMP + r' (\S+)\] \[((?:=|>| |\033\[[0-9;]*m)*)\] '
                 r'(\d+)%(?: < (.*))?')


def bars(text):
    """(percentage, name, full width) of the bars shown in a text."""
    out = []
    for part in re.split('[\r\n]', text):
        if '%' not in part:
            continue
        m = BAR.fullmatch(part)
        check(m, f'progress bar {part!r}')
        seconds(m.groups()[:3])
        body = ANSI.sub('', m[5])
        check(re.fullmatch('=*>? *', body), f'progress bar {body!r}')
        done, val = body.count('='), int(m[6])
        check(abs(done/len(body)*100 - val) <= 100/len(body) + 1,
              f'{done} of {len(body)} in a bar at {val} %')
        out.append((val, m[7] or '', len(body)))
    return out


@st.composite
def bar_strategy(draw):
    return {'count': draw(st.one_of(st.integers(1, 60),
                                    st.integers(60, 1500))),
            'name': draw(gen.scalars('', 'orders (0, 0, 0)', '50')),
            'interval': draw(st.one_of(
                gen.scalars('', '', '10', '25.', '0.5', '99', '1'),
                st.floats(0.1, 99.9).map(lambda v: repr(round(v, 2))))),
            'from': draw(gen.scalars(1, 1, 0)),
            'stride': draw(gen.scalars(1, 1, 2, 3)),
            **{k: draw(v) for k, v in ENV.items()}}


def run_bar(case):
    n = case['count']
    step = case['stride']
    index = list(range(case['from'], n + 1, step))
    if not index or index[-1] != n:
        index.append(n)
    width = float(case['interval'] or 1.)
    drv.lib()
    with environment(case['term'], case['inter']):
        res, text = capture(
            lambda: drv.bar(n, case['name'], case['interval'], index))
    check(not isinstance(res, Exception), f'progress bar raised {res!r}')
    shown = bars(text)
    check(shown and shown[-1][0] == 100 and text.endswith('\r\n')
          and text.count('\n') == 1, f'the bar ends as {text[-90:]!r}')
    check(all(s[1] == case['name'] for s in shown), f'names {shown}')
    vals = [s[0] for s in shown]
    check(vals == sorted(vals), f'percentages {vals}')
    # one bar at each node, up to rounding
    nodes = [width*k for k in range(0 if not case['interval'] else 1,
                                    math.ceil(100/width) + 1)]
    check(len(vals) <= len(nodes) + 2, f'{len(vals)} bars of {n} tasks shown '
          f'at intervals of {width} %')
    fine = 100*step/n < width*0.98
    if fine:
        at = [100*i/n for i in index]
        for v in nodes:
            first = next((a for a in at if a >= v - 1e-3), 100.)
            second = next((a for a in at if a >= v + 1e-3), 100.)
            check(any(abs(s - w) <= 1.001 for s in vals
                      for w in (first, second)),
                  f'no bar at {v:.2f} % of {n} tasks among {vals}')
        gaps = np.diff([0.] + vals)
        check(gaps.max() <= width + 100*step/n + 1.01,
              f'a gap of {gaps.max()} % between bars {vals}')
    return ok(n > 1, 'fine' if fine else 'coarse',
              'default' if not case['interval'] else 'interval')


@st.composite
def elapsed_strategy(draw):
    return {'t': draw(st.one_of(st.integers(0, 2*10**6), st.floats(0, 1e6),
                                gen.scalars(59, 60, 3599, 3600, 359999,
                                            360000, 59.999)))}


def run_elapsed(case):
    t = int(case['t'])
    got = drv.elapsed(float(case['t']))
    want = f'{t//3600:02d}:{t//60 % 60:02d}:{t % 60:02d}'
    check(got == want, f"{case['t']} s shown as {got}, not {want}")
    return ok(t > 0, 'long' if t >= 360000 else 'short')


# -- measurements -------------------------------------------------------------

@st.composite
def measure_strategy(draw):
    case = draw(anystat.cases(norms=('none', 'particle', 'mesh'), nd=12,
                              nr=18, max_mesh=300))
    case['progbar'] = draw(gen.scalars(True, 0.5, 1, 10., 33., False))
    case['verbose'] = draw(gen.scalars(0, 10, 20, 30, 40, 50, 60))
    return case


def entries_of(text):
    """(level, message) of lines of log, without the figures of memory."""
    out = []
    for part in re.split('[\r\n]+', text):
        m = re.match(r'\[' + STAMP + r' ([A-Z]{4})( C\+\+)?\] (.*)', part)
        if m and not BAR.fullmatch(part):
            mesg = re.sub(r'\S*/\S*', '<path>', m[6]) \
                if 'memory' not in m[6].lower() else '<memory>'
            out.append((m[4], mesg, bool(m[5])))
    return out


def run_measure(case):
    from triumvirate.parameters import ParameterSet
    data, rand = anystat.columns(case)
    made = anystat.edges(case)
    set_threads(1)

    def act(verbose, progbar):
        p = anystat.params(case, made, verbose=verbose, progbar=progbar)
        kw = anystat.los_args(case, data, rand)
        if made[0] == 'custom':
            kw['binning'] = gen.make_binning(anystat.space(case), made)
        if case.get('wa') is not None:
            kw['wa_orders'] = tuple(case['wa'])
        pset = ParameterSet(param_dict=p)
        cats = anystat.cats(case, data, rand)
        return lambda: anystat.func(case)(*cats, paramset=pset, **kw)
    try:
        with environment(None, None):
            texts = {}
            for v in (0, case['verbose']):
                capture(act(v, False))       # levels last between calls
                res, texts[v] = capture(act(v, False))
                check(not isinstance(res, Exception),
                      f"{case['stat']} raised {res!r}")
            res, shown = capture(act(60, case['progbar']))
            check(not isinstance(res, Exception), f"{case['stat']} with a "
                  f"progress bar at {case['progbar']} raised {res!r}")
    finally:
        set_threads(2)
    full = entries_of(texts[0])
    got = entries_of(texts[case['verbose']])
    want = [e for e in full if LEVELS[e[0]] >= case['verbose']]
    check(all(e[2] for e in full), f'C++ lines without C++ state: {full}')
    check(got == want, f"{case['stat']} logs {got} at level "
          f"{case['verbose']}, not {want}")
    groups = {}
    for val, name, _ in bars(shown):
        groups.setdefault(name, []).append(val)
    if case['progbar'] is False or anystat.points(case) == 2:
        check(not groups, f"unasked progress bars {groups} in {case['stat']}")
    else:
        check(groups, f"no progress bar in {case['stat']}")
        for name, vals in groups.items():
            check(vals == sorted(vals) and vals[-1] == 100
                  and vals.count(100) == 1,
                  f"progress of {name!r} in {case['stat']}, form "
                  f"{case['form']}: {vals}")
            most = 100/(1. if case['progbar'] is True else case['progbar'])
            check(len(vals) <= math.ceil(most) + 2,
                  f"{len(vals)} bars at {case['progbar']} % of {name!r}")
        check(shown.count('\n') >= len(groups), 'bars on one line')
    return ok(len(full) > 0, case['stat'], f"verbose={case['verbose']}",
              f"progbar={case['progbar']}")


# -- the program --------------------------------------------------------------

@st.composite
def program_strategy(draw):
    case = draw(c19.strategy())
    case['verbose'] = draw(gen.scalars(0, 10, 20, 30, 40, 50, 60))
    case['env'] = []
    case['wisdom'] = ''
    case['out'] = 'out'
    return case


def run_program(case):
    with scratch() as path:
        why, job = c19.prepare(case, path.resolve())
        if job is None:
            return ok(False, why)
        texts = {}
        for v in (0, case['verbose']):
            env = dict(job['env'], OMP_NUM_THREADS='1',
                       TRV_OVERRIDE_VERBOSE=str(v))
            shutil.rmtree(job['home']/'out', ignore_errors=True)
            done = subprocess.run(
                [prog_path(), 'p.ini'], cwd=job['home'], capture_output=True,
                timeout=180, env=env)
            texts[v] = done.stdout.decode('utf-8', 'replace')
            rc = texts.setdefault('rc', done.returncode)
            check(rc == done.returncode, f'exit status {rc} at level 0, '
                  f'{done.returncode} at {v}')
    full = entries_of(texts[0])
    got = entries_of(texts[case['verbose']])
    # messages about the parameters come before their level is known
    cut = next((i for i, e in enumerate(full)
                if e[1].endswith('... read parameters.')), None)
    check(cut is not None, f'no parameters read: {full}')

    def kept(entries):
        return [e for e in entries if LEVELS[e[0]] >= case['verbose']]
    check(kept(got) == kept(full), f"the program logs {kept(got)} at level "
          f"{case['verbose']}, not {kept(full)}")
    low = [e for e in got if LEVELS[e[0]] < case['verbose']]
    check(all(e in full[:cut + 1] for e in low),
          f"the program logs {low} at level {case['verbose']}")
    return ok(len(full) > cut, case['stat'], f"verbose={case['verbose']}",
              'failed' if texts['rc'] else 'measured')


# -- options of the program ---------------------------------------------------

@st.composite
def option_strategy(draw):
    return {'args': draw(st.lists(gen.scalars(
        '-h', '--help', '-V', '--version', 'no.ini', '-x', '--verbose',
        '-hV', '/', ''), max_size=3))}


def run_option(case):
    args = case['args']
    with scratch() as path:
        done = subprocess.run([prog_path(), *args], cwd=path, timeout=60,
                              capture_output=True)
        left = list(path.iterdir())
    text = (done.stdout + done.stderr).decode('utf-8', 'replace')
    check(not left, f'{args} wrote {left}')
    mean = None
    for a in args:
        if a in ('-h', '--help'):
            mean = 'help'
        elif a in ('-V', '--version'):
            mean = 'version'
        elif len(args) > 1 and a.startswith('-'):
            mean = 'unknown'
        if mean:
            break
    check((done.returncode == 0) == (mean in ('help', 'version')),
          f'exit status {done.returncode} of {args}: {text[-300:]}')
    check(done.returncode >= 0, f'{args} ended by {-done.returncode}')
    check(('Usage:' in text) == (mean in ('help', 'unknown')),
          f'usage after {args}: {text[-300:]}')
    if mean == 'version':
        from triumvirate import __version__
        check(__version__.split('+')[0].split('.dev')[0] in text
              or 'ersion' in text, f'version in {text!r}')
    return ok(bool(args), mean or 'run')


CHECKS = [
    Sub('python', py_strategy, run_python, quick=1500, thorough=60000,
        rule='histories of messages at all levels, warnings, states, later '
        'records, loggers set up again and terminals; non-trivial when '
        'something is logged'),
    Sub('cpp', cpp_strategy, run_cpp, quick=1000, thorough=40000,
        rule='C++ messages at all levels and limits; non-trivial when '
        'something is logged'),
    Sub('bar', bar_strategy, run_bar, quick=1000, thorough=40000,
        rule='progress bars of 1 to 1500 tasks at all intervals; '
        'non-trivial with several tasks'),
    Sub('elapsed', elapsed_strategy, run_elapsed, quick=1000, thorough=20000,
        rule='elapsed times; non-trivial from 1 s'),
    Sub('measure', measure_strategy, run_measure, quick=200, thorough=5000,
        shards=6, rule='all ten statistics logged at each level, and with '
        'progress bars; non-trivial when something is logged'),
    Sub('program', program_strategy, run_program, quick=100, thorough=3000,
        shards=4, rule='the program at each level; non-trivial when a run '
        'goes past its parameters'),
    Sub('options', option_strategy, run_option, quick=60, thorough=600,
        rule='command-line options; non-trivial with any'),
]
