#!/usr/bin/env python3
"""Say for each planted bug whether the lines it removes are original ones."""
import re
import subprocess
import sys
from pathlib import Path

BASE = 'b9c541a'
for d in sorted((Path(__file__).resolve().parent.parent/'seeded').iterdir()):
    bad, f, n, k = [], None, 0, 0
    for line in (d/'patch.diff').read_text().split('\n'):
        if line.startswith('--- a/'):
            f = line[6:]
            blame = subprocess.run(['git', 'blame', '-s', f], cwd='/repo',
                                   capture_output=True, text=True).stdout.split('\n')
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line)[1])
        elif line.startswith('-') and not line.startswith('---'):
            k += 1
            if not blame[n - 1].startswith('^' + BASE):
                bad.append((f, n))
            n += 1
        elif line.startswith(' '):
            n += 1
    print(d.name, 'removes', k, 'ok' if k and not bad else f'NOT ORIGINAL {bad}')
