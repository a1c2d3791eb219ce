#!/usr/bin/env python3
"""Random small mutations of the code, each run against the checks it concerns.

mutate.py [-j N] [-n COUNT] [--seed S] [--out FILE] [--files REGEX]

Every mutation is made in a clone of /repo and checked there; the outcome
(build, caught by which check, survived, timeout) goes to a JSON-lines file.
Survivors are to be read by hand: many are equivalent.
"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import threading
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
CHECKS = {
    'catalogue.py': 'C01 C02 C17 C18', 'fieldmesh.py': 'C14',
    'threept.py': 'C06 C07 C08 C09 C10 C12 C17 C18',
    'twopt.py': 'C03 C04 C05 C12 C17 C18', 'transforms.py': 'C21 C24',
    '_arrayops.py': 'C22 C21 C24 C25', 'winconv.py': 'C23 C24 C25 C26',
    '_mpitools.py': 'C26', 'parameters.pyx': 'C15 C16 C17',
    'dataobjs.pyx': 'C13 C14', '_field.pyx': 'C14', '_fftlog.pyx': 'C21',
    '_particles.pyx': 'C04 C07', '_twopt.pyx': 'C03 C04 C05 C12',
    '_threept.pyx': 'C06 C07 C08 C09 C12', 'arrayops.cpp': 'C21 C27 C20',
    'dataobjs.cpp': 'C13 C14 C19', 'fftlog.cpp': 'C21 C27',
    'field.cpp': 'C03 C04 C05 C06 C14 C07 C08 C09 C12 C11',
    'io.cpp': 'C19 C20 C18', 'maths.cpp': 'C27', 'monitor.cpp': 'C19 C20 C30', 'logger.py': 'C30',
    'parameters.cpp': 'C15 C16 C19 C20', 'particles.cpp': 'C19 C20 C12 C01 C04',
    'threept.cpp': 'C06 C07 C08 C09 C10 C12 C19', 'twopt.cpp':
    'C03 C04 C05 C12 C19', 'triumvirate.cpp': 'C19 C20 C15',
    'maths.hpp': 'C27', 'field.hpp': 'C03 C06', 'dataobjs.hpp': 'C13 C16',
    'comb_data_vectors.py': 'C29', 'exchange_coord_axes.py': 'C29',
    'gen_param_file.py': 'C29', 'gen_wc_coeffs.py': 'C29',
}
SKIP = re.compile(
    r'logger|printf|throw|raise |warn|exit\(|#include|^\s*(//|#|\*)|getLogger|'
    r'gbytes|count_|memory|update_|cout|cerr|std::string|import |progbar|'
    r'tqdm|help|__doc__|MARK|system_mem|max_count|display|trv::sys::')
SWAPS = [
    (r'(?<![<>=\-])<(?![<>=])', '<='), (r'<=', '<'),
    (r'(?<![>\-=])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='),
    (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r' \+ ', ' - '),
    (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r'\+= ', '-= '),
    (r'-= ', '+= '), (r'\*= ', '/= '), (r'\btrue\b', 'false'),
    (r'\bfalse\b', 'true'), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'),
    (r'\band\b', 'or'), (r'\bor\b', 'and'), (r'\bis not None', 'is None'),
    (r'\bis None', 'is not None'), (r'\bnot in\b', 'in'),
    (r'\bif not ', 'if '), (r'\[0\]', '[1]'), (r'\[1\]', '[2]'),
    (r'\[2\]', '[0]'), (r'\bstd::conj\(', '('), (r'\bceil\b', 'floor'),
    (r'\bfloor\b', 'ceil'), (r'\bcos\b', 'sin'), (r'\bsin\b', 'cos'),
    (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\.real\b', '.imag'),
    (r'(?<![\w.\[])0\b(?![.\w])', '1'), (r'(?<![\w.\[])1\b(?![.\w])', '2'),
    (r'(?<![\w.\[])2\b(?![.\w])', '1'), (r'(?<![\w])0\.5\b', '1.'),
    (r'(?<![\w.])2\.(?!\d)', '1.'), (r'(?<![\w.])1\.(?!\d)', '2.'),
    (r'ell1', 'ell2'), (r'ell2', 'ell1'), (r'\bm1_', 'm2_'),
    (r'\((\w+), (\w+)(?=[,)])', r'(\2, \1'),
    (r', (\w+), (\w+)(?=[,)])', r', \2, \1'),
    (r'_a\b', '_b'), (r'_b\b', '_a'), (r'\bdata\b', 'rand'),
]
DELETE = re.compile(r'^\s+[\w\->.\[\]()_:,]+\s*(=|\+=|-=|\*=|/=)[^=].*;$'
                    r'|^\s+[\w\->.:]+\(.*\);$|^\s+(continue|break);$')
DELETE_PY = re.compile(r'^\s+[\w.\[\]\'"]+\s*(=|\+=|-=|\*=|/=)[^=].*[^(,\[{\\]$'
                       r'|^\s+(continue|break)$')


def code_lines(path):
    text = path.read_text()
    lines = text.split('\n')
    skip = set()
    if path.suffix == '.py':
        for node in ast.walk(ast.parse(text)):
            if isinstance(node, ast.Expr) and isinstance(
                    node.value, ast.Constant):
                skip.update(range(node.lineno - 1, node.end_lineno))
    else:
        opened, hip = None, 0
        for i, line in enumerate(lines):
            if path.suffix == '.pyx':
                n = line.count('"""')
                if opened or n:
                    skip.add(i)
                if n == 1:
                    opened = not opened
                continue
            if re.match(r'\s*#if.*(HIP|CUDA|VERBOSE|DBG|DEBUG|LEGACY)', line):
                hip += 1
            elif hip and re.match(r'\s*#if', line):
                hip += 1 if hip > 0 else -1
            elif hip and re.match(r'\s*#endif', line):
                hip -= 1 if hip > 0 else -1
            elif abs(hip) == 1 and re.match(r'\s*#else', line):
                hip = -hip
            if hip > 0:
                skip.add(i)
            if '/*' in line:
                opened = True
            if opened:
                skip.add(i)
            if '*/' in line:
                opened = False
    return lines, [i for i, l in enumerate(lines)
                   if i not in skip and l.strip() and not SKIP.search(l)]


def mutants(path, rng):
    lines, code = code_lines(path)
    out = []
    for i in code:
        line = lines[i]
        body = line.split('//')[0] if path.suffix in ('.cpp', '.hpp') \
            else line.split('  #')[0]
        for pat, new in SWAPS:
            for m in re.finditer(pat, body):
                if body[:m.start()].count('"') % 2 or \
                        body[:m.start()].count("'") % 2:
                    continue
                out.append((i, line[:m.start()] + m.expand(new)
                            + line[m.end():]))
        if path.suffix in ('.cpp', '.hpp'):
            if DELETE.match(body):
                out.append((i, re.match(r'\s*', line)[0] + ';'))
        elif DELETE_PY.match(body):
            out.append((i, re.match(r'\s*', line)[0] + 'pass'))
    rng.shuffle(out)
    # one for every line
    seen, keep = set(), []
    for i, new in out:
        if i not in seen and new != lines[i]:
            seen.add(i)
            keep.append((i, lines[i], new))
    return keep


ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=3)
ap.add_argument('-n', type=int, default=50)
ap.add_argument('--seed', type=int, default=0)
ap.add_argument('--out', default='/tmp/mutants.jsonl')
ap.add_argument('--files', default='.')
ap.add_argument('--hours', type=float, default=10.)
a = ap.parse_args()
rng = random.Random(a.seed)
base = Path('/repo')
pool = []
for f in sorted([*(base/'src/triumvirate').rglob('*'),
                 *(base/'apps').rglob('*')]):
    if f.name in CHECKS and f.suffix in ('.py', '.pyx', '.cpp', '.hpp') \
            and re.search(a.files, str(f.relative_to(base))) and not (
                f.suffix == '.cpp' and f.with_suffix('.pyx').exists()):
        pool += [(f.relative_to('/repo'), *m) for m in mutants(f, rng)]
rng.shuffle(pool)
print(len(pool), 'mutations possible')
pool = pool[:a.n]
lock = threading.Lock()
t_end = time.time() + 3600*a.hours


def worker(w):
    work = Path(f'/tmp/mutwork/{os.getpid()}.{w}')
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    subprocess.run(['git', 'clone', '-q', '/repo', str(work/'repo')],
                   check=True)
    verif = work/'verif'
    verif.mkdir()
    shutil.copytree(VERIF/'harness', verif/'harness')
    for name in ('known_findings.txt', 'properties.jsonl', 'MANIFEST.json'):
        shutil.copy(VERIF/name, verif/name)
    while time.time() < t_end:
        with lock:
            if not pool:
                break
            rel, i, old, new = pool.pop()
        f = work/'repo'/rel
        lines = f.read_text().split('\n')
        assert lines[i] == old
        lines[i] = new
        f.write_text('\n'.join(lines))
        env = dict(os.environ, TRV_VERIF_REPO=str(work/'repo'),
                   TRV_VERIF_CACHE=str(work/'cache'), VERIF_SEED='1',
                   VERIF_TIER='quick', OMP_NUM_THREADS='2')
        res, took = 'survived', {}
        for c in CHECKS[f.name].split():
            t0 = time.time()
            try:
                p = subprocess.run(
                    ['/opt/venv/bin/python', 'harness/check.py', c],
                    cwd=verif, env=env, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, text=True, timeout=900,
                    errors='replace')
            except subprocess.TimeoutExpired:
                res = f'{c} timeout'
                break
            took[c] = round(time.time() - t0)
            if p.returncode == 1 and 'VIOLATION' in p.stdout:
                res = c
                break
            if p.returncode:
                res = 'no build' if 'BuildError' in p.stdout or \
                    'build' in p.stdout[-3000:].lower() else \
                    f'{c} rc {p.returncode}: {p.stdout[-300:]}'
                break
        f.write_text('\n'.join(lines[:i] + [old] + lines[i + 1:]))
        with lock, open(a.out, 'a') as out:
            out.write(json.dumps({
                'file': f.name, 'line': i + 1, 'old': old.strip(),
                'new': new.strip(), 'result': res, 'took': took}) + '\n')
    shutil.rmtree(work)


ts = [threading.Thread(target=worker, args=(w,)) for w in range(a.j)]
for t in ts:
    t.start()
for t in ts:
    t.join()
