#!/opt/venv/bin/python
"""Decide one property: check.py ID [--tier quick|thorough] [--replay FILE]."""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent
PY = '/opt/venv/bin/python'
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS,
         signal.SIGILL, signal.SIGTRAP}
HANG = 200.
FINDINGS = VERIF / 'known_findings.txt'


def environment():
    env = dict(os.environ)
    env.update(
        PATH='/opt/venv/bin:/usr/lib/ccache:' + env.get('PATH', ''),
        PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
        OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
        OMP_WAIT_POLICY='passive', MPLBACKEND='Agg',
        # keep freed meshes in the heap: repeated page faults dominate
        MALLOC_MMAP_MAX_='0', MALLOC_TRIM_THRESHOLD_='2000000000',
    )
    env.pop('PYTHONPATH', None)
    return env


class Pool:
    def __init__(self, limit):
        self.limit = limit
        self.running = []
        self.done = []

    def run(self, jobs):
        todo = list(jobs)
        while todo or self.running:
            while todo and len(self.running) < self.limit:
                self.start(todo.pop(0))
            time.sleep(0.05)
            for item in list(self.running):
                self.poll(item)
        return self.done

    def start(self, job):
        Path(job['out']).mkdir(parents=True)
        Path(job['scratch']).mkdir(parents=True)
        spec = Path(job['out']) / 'job.json'
        spec.write_text(json.dumps(job))
        log = open(Path(job['out']) / 'log', 'wb')
        env = environment()
        env.update(job.get('env') or {})
        proc = subprocess.Popen(
            [PY, str(HERE / 'worker.py'), str(spec)], stdout=log,
            stderr=subprocess.STDOUT, env=env, stdin=subprocess.DEVNULL,
            start_new_session=True,
        )
        log.close()
        self.running.append({'job': job, 'proc': proc, 't0': time.time(),
                             'hung': False})

    def poll(self, item):
        proc, out = item['proc'], Path(item['job']['out'])
        if proc.poll() is None:
            cur = out / 'current.json'
            try:
                age = time.time() - cur.stat().st_mtime
            except FileNotFoundError:
                age = time.time() - item['t0'] - 60
            if age > HANG:
                item['hung'] = True
                os.killpg(proc.pid, signal.SIGKILL)
                proc.wait()
            else:
                return
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.running.remove(item)
        self.done.append(collect(item))


def collect(item):
    job, rc = item['job'], item['proc'].returncode
    out = Path(job['out'])
    log = (out / 'log').read_bytes()[-3000:].decode(errors='replace')
    result = {'job': job, 'rc': rc, 'log': log, 'hung': item['hung'],
              'seconds': time.time() - item['t0']}
    res = out / 'result.json'
    if res.exists():
        result['result'] = json.loads(res.read_text())
    else:
        result['result'] = None
        try:
            result['current'] = json.loads((out / 'current.json').read_text())
        except Exception:
            result['current'] = None
    shutil.rmtree(job['scratch'], ignore_errors=True)
    return result


def describe(res):
    """('ok'|'violation'|'error', case, message, traceback)."""
    r = res['result']
    if r is not None:
        if r['violation']:
            v = r['violation']
            return 'violation', v['case'], v['message'], v['traceback']
        if r['error']:
            v = r['error']
            return 'error', v['case'], v['message'], v['traceback']
        return 'ok', None, '', ''
    sig = -res['rc'] if res['rc'] is not None and res['rc'] < 0 else None
    case = res.get('current')
    if res['hung'] and case is not None:
        return 'hang', case, f'no answer within {HANG:.0f} s', res['log']
    if sig in CRASH and case is not None:
        return ('violation', case,
                f'process died with {signal.Signals(sig).name}', res['log'])
    return 'error', case, f'worker ended with status {res["rc"]}', res['log']


def known_findings(prop):
    out = []
    if FINDINGS.exists():
        for line in FINDINGS.read_text().splitlines():
            if line.startswith(f'KNOWN-FINDING: property={prop} '):
                out.append(line.strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='run this sub-check only (development)')
    ap.add_argument('--scale', type=float, default=1.)
    args = ap.parse_args()
    t0 = time.time()
    prop = args.property
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    sys.path.insert(0, str(HERE))
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import build
    # Only declarations are needed here: modules under test are imported in
    # the workers.
    mod = importlib.import_module('props.' + prop.lower())
    try:
        root = build.build(getattr(mod, 'TARGETS', ['py']))
    except build.BuildError as exc:
        print(f'build failed:\n{exc}')
        return 2
    t_build = time.time() - t0

    base = Path(tempfile.mkdtemp(prefix=f'trv_{prop}_'))
    try:
        return decide(args, prop, tier, seed, mod, root, base, t0, t_build)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def decide(args, prop, tier, seed, mod, root, base, t0, t_build):
    ncpu = os.cpu_count() or 4
    common = dict(property=prop, root=str(root), tier=tier)

    if args.replay:
        spec = json.loads(Path(args.replay).read_text())
        job = dict(common, sub=spec['sub'], case=spec['case'],
                   out=str(base / 'out'), scratch=str(base / 'scratch'),
                   env=next(s.env for s in mod.CHECKS
                            if s.name == spec['sub']))
        res = Pool(1).run([job])[0]
        kind, case, message, trace = describe(res)
        print(f'{prop} {spec["sub"]}: {kind} {message}\n{trace}')
        if kind in ('violation', 'hang'):
            print(f'VIOLATION property={prop} replay={args.replay}')
            return 1
        return 0 if kind == 'ok' else 2

    quick = tier == 'quick'
    seconds = getattr(mod, 'SECONDS', {}).get(
        tier, 110 if quick else 3000)
    jobs = []
    for sub in mod.CHECKS:
        if args.only and sub.name != args.only:
            continue
        shards = sub.shards if quick else sub.tshards
        total = max(int((sub.quick if quick else sub.thorough)
                        * args.scale), 1)
        for i in range(shards):
            n = total // shards + (1 if i < total % shards else 0)
            if not n:
                continue
            h = hashlib.sha256(
                f'{seed}/{prop}/{sub.name}/{i}'.encode()).digest()
            jobs.append(dict(
                common, sub=sub.name, examples=n, seconds=seconds,
                seed=int.from_bytes(h[:6], 'big'), env=sub.env,
                shrink_seconds=40,
                out=str(base / f'{sub.name}-{i}'),
                scratch=str(base / f'scratch-{sub.name}-{i}'),
            ))
    # the largest shards first
    results = Pool(ncpu).run(jobs)

    # seeded regression cases: minimal inputs kept from earlier failures
    violations, errors = [], []
    for res in results:
        kind, case, message, trace = describe(res)
        if kind == 'hang':
            job = dict(common, sub=res['job']['sub'], case=case,
                       env=res['job']['env'],
                       out=str(base / f'hang-{len(violations)}'),
                       scratch=str(base / f'hang-s{len(violations)}'))
            again = describe(Pool(1).run([job])[0])
            kind = 'violation' if again[0] in ('hang', 'violation') \
                else 'error'
        if kind == 'violation':
            violations.append((res['job']['sub'], case, message, trace))
        elif kind == 'error':
            errors.append((res['job']['sub'], case, message, trace))

    # known findings: each has a dedicated reproduction in the module
    listed = known_findings(prop)
    reproducers = getattr(mod, 'KNOWN', {})
    for line in listed:
        print(line)
    for line in listed:
        tag = line.split('[', 1)[-1].split(']', 1)[0]
        if tag not in reproducers:
            errors.append(('known', None, f'no reproduction for [{tag}]', ''))

    evaluations = sum((r['result'] or {}).get('evaluations', 0)
                      for r in results)
    keys, samples, per, labels = set(), [], {}, {}
    for r in results:
        if not r['result']:
            continue
        name = r['job']['sub']
        keys.update(f'{name}:{k}' for k in r['result']['keys'])
        entry = per.setdefault(name, {'evaluations': 0, 'nontrivial': 0,
                                      'skipped': 0, 'labels': {}})
        entry['evaluations'] += r['result']['evaluations']
        entry['nontrivial'] += len(r['result']['keys'])
        entry['skipped'] += r['result']['skipped']
        for k, v in r['result']['labels'].items():
            entry['labels'][k] = entry['labels'].get(k, 0) + v
        if len([s for s in samples if s['check'] == name]) < 1:
            samples += [{'check': name, 'case': s}
                        for s in r['result']['samples'][:1]]
    wall = time.time() - t0
    rule = ' | '.join(f'{s.name}: {s.rule}' for s in mod.CHECKS)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(keys),
            rule=rule, samples=samples, per_check=per,
            build_seconds=round(t_build, 1),
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'Finite sampling: absence of violations outside the generated '
            'cases is not established.'],
        wall_s=round(wall, 1), violations=len(violations),
    )
    if not args.only:
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / f'{prop}.json').write_text(
            json.dumps(evidence, indent=1))

    print(f'{prop} {tier} seed={seed}: {evaluations} cases, {len(keys)} '
          f'distinct non-trivial, build {t_build:.1f} s, total {wall:.1f} s')
    for name, entry in per.items():
        print(f'  {name}: {entry}')
    replays = VERIF / 'replays'
    seen = set()
    for name, case, message, trace in violations:
        replays.mkdir(exist_ok=True)
        text = json.dumps(dict(property=prop, sub=name, case=case,
                               message=message), sort_keys=True)
        path = replays / (f'{prop}-{name}-'
                          + hashlib.sha256(text.encode()).hexdigest()[:10]
                          + '.json')
        path.write_text(text)
        if path in seen:
            continue
        seen.add(path)
        print(f'--- {name}: {message}\n{trace[-2500:]}')
        print(f'VIOLATION property={prop} replay={path}')
    for name, case, message, trace in errors:
        print(f'*** harness error in {name}: {message}\n{trace}\n'
              f'case: {json.dumps(case)[:1500]}')
    if violations:
        return 1
    return 2 if errors else 0


if __name__ == '__main__':
    sys.exit(main())
