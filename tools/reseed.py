"""Re-make the planted patches against /repo's HEAD: reseed.py BASE [ids].

Each patch is applied to BASE, for which it was made, and carried over by a
cherry-pick, so that repeated code does not let it land elsewhere.
"""
import subprocess
import sys
import tempfile
from pathlib import Path

SEEDED = Path(__file__).resolve().parent.parent/'seeded'


def git(*args, cwd, **kw):
    return subprocess.run(['git', '-c', 'user.name=x', '-c', 'user.email=x@x',
                           *args], cwd=cwd, capture_output=True, text=True,
                          **kw)


def main(base, ids):
    with tempfile.TemporaryDirectory(prefix='reseed') as tmp:
        repo = tmp + '/r'
        git('clone', '-q', '--shared', '/repo', repo, cwd=tmp, check=True)
        head = git('rev-parse', 'HEAD', cwd=repo).stdout.strip()
        for d in sorted(SEEDED.iterdir()):
            if ids and d.name not in ids:
                continue
            git('checkout', '-q', '-f', base, cwd=repo, check=True)
            if git('apply', str(d/'patch.diff'), cwd=repo).returncode:
                print(d.name, 'does not apply to', base)
                continue
            git('commit', '-qam', 'x', cwd=repo, check=True)
            mine = git('rev-parse', 'HEAD', cwd=repo).stdout.strip()
            git('checkout', '-q', head, cwd=repo, check=True)
            if git('cherry-pick', '-n', mine, cwd=repo).returncode:
                print(d.name, 'conflicts')
                git('reset', '-q', '--hard', cwd=repo)
                continue
            diff = git('diff', 'HEAD', cwd=repo, check=True).stdout
            if diff != (d/'patch.diff').read_text():
                (d/'patch.diff').write_text(diff)
                print(d.name, 're-made')


main(sys.argv[1], sys.argv[2:])
