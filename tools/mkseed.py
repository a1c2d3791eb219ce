"""Helper to write one planted bug: mkseed(id, prop, edits, demo, needs, breaks).

edits: list of (path under /repo, old text, new text[, n]); the old text must
occur once unless its occurrence n (from 0) is given.  The demo is a Python program run by demo.sh.
"""
import json
import shutil
import subprocess
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent


def mkseed(sid, prop, edits, demo, needs, breaks, repo='/repo'):
    out = VERIF/'seeded'/sid
    out.mkdir(parents=True, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix='mkseed') as tmp:
        subprocess.run(['git', 'clone', '-q', '--shared', repo, tmp + '/r'],
                       check=True)
        for path, old, new, *nth in edits:
            f = Path(tmp, 'r', path)
            text = f.read_text()
            if nth:
                parts = text.split(old)
                n = nth[0]
                f.write_text(old.join(parts[:n + 1]) + new
                             + old.join(parts[n + 1:]))
                continue
            if text.count(old) != 1:
                shutil.rmtree(out)
                raise SystemExit(f'{sid}: {path}: old text occurs '
                                 f'{text.count(old)} times')
            f.write_text(text.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=tmp + '/r', check=True,
                              capture_output=True, text=True).stdout
    (out/'patch.diff').write_text(diff)
    (out/'demo.py').write_text(demo.lstrip())
    (out/'demo.sh').write_text(
        '#!/bin/bash\nset -e\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
        'scratch="$(mktemp -d)"\ntrap \'rm -rf "$scratch"\' EXIT\n'
        'export OMP_NUM_THREADS=2\ncd "$scratch"\n'
        'PYTHONPATH=/repo/src /opt/venv/bin/python "$here/demo.py"\n')
    (out/'meta.json').write_text(json.dumps(
        {'property': prop, 'needs': needs, 'what_it_breaks': breaks},
        indent=1) + '\n')
    print('wrote', sid)
