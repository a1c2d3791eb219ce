#!/usr/bin/env python3
"""Confirm planted bugs and run checks against them, in private copies.

seedtest.py [-j N] [--no-tests] [--no-checks] [--checks C03,C04] [ID ...]

Each planted bug is tried on a copy of /repo that is bind-mounted over /repo
in a mount namespace of its own: demo on the clean build, patch, build,
stable tests, demo again, check of its property.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
INNER = r'''
set -u
mount --bind "$COPY" /repo || exit 9
cd /repo
bash "$SEED/demo.sh" >"$LOG.demo0" 2>&1; echo "demo0=$?"
git apply "$SEED/patch.diff" || { echo "apply=1"; exit 0; }
if [ -n "$TESTS" ]; then
bash /opt/vp/build.sh >"$LOG.build" 2>&1; echo "build=$?"
cd /repo
bash "$SEED/demo.sh" >"$LOG.demo1" 2>&1; echo "demo1=$?"
bash /opt/vp/test.sh "$LOG.json" >"$LOG.test" 2>&1
fi
for c in $CHECKS; do
cd "$VERIFDIR"
VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 /opt/venv/bin/python harness/check.py $c --tier quick >"$LOG.check.$c" 2>&1
rc=$?
echo "check.$c=$rc $(grep -c "VIOLATION property=$c" "$LOG.check.$c") $(grep -m1 -A3 VIOLATION "$LOG.check.$c" | tr '\n' ' ' | cut -c1-300)"
done
'''


def one(sid, args):
    seed = VERIF/'seeded'/sid
    meta = json.loads((seed/'meta.json').read_text())
    work = Path('/tmp/seedwork')
    work.mkdir(exist_ok=True)
    copy = work/sid
    if copy.exists():
        shutil.rmtree(copy)
    subprocess.run(['cp', '-a', '/repo', str(copy)], check=True)
    log = str(work/f'{sid}.log')
    checks = args.checks.split(',') if args.checks else [meta['property']]
    if args.no_checks:
        checks = []
    env = dict(os.environ, COPY=str(copy), SEED=str(seed), LOG=log,
               TESTS='' if args.no_tests else '1', CHECKS=' '.join(checks),
               VERIFDIR=str(VERIF))
    out = subprocess.run(['unshare', '-Urm', 'bash', '-c', INNER], env=env,
                         capture_output=True, text=True)
    text = out.stdout + out.stderr
    if not args.no_tests and Path(log + '.json').exists():
        res = json.load(open(log + '.json'))
        passed = set(res.get('passed', []))
        miss = [t for t in STABLE if t not in passed]
        text += f'tests missing={len(miss)} {miss[:3]}\n'
    shutil.rmtree(copy)
    print(f'== {sid} ({meta["property"]})\n{text}', flush=True)


ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*')
ap.add_argument('-j', type=int, default=2)
ap.add_argument('--no-tests', action='store_true')
ap.add_argument('--no-checks', action='store_true')
ap.add_argument('--checks')
a = ap.parse_args()
ids = a.ids or sorted(p.name for p in (VERIF/'seeded').iterdir()
                      if (p/'meta.json').exists())
with ThreadPoolExecutor(a.j) as ex:
    list(ex.map(lambda s: one(s, a), ids))
