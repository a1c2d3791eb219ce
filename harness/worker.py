"""Run one shard of one sub-check, or replay one case, in its own process."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import warnings
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))


def setup(root):
    sys.path.insert(0, str(Path(root) / 'tree' / 'src'))
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import core
    core.ROOT = root
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.NOTSET)
    return core


def dump(obj):
    return json.dumps(obj, sort_keys=True)


def find_sub(mod, name):
    for sub in mod.CHECKS:
        if sub.name == name:
            return sub
    raise SystemExit(f'no sub-check {name}')


def classify(core, exc):
    """Return 'violation' or 'error' for an exception from a case."""
    if isinstance(exc, core.Violation):
        return 'violation'
    if isinstance(exc, core.HarnessError):
        return 'error'
    if isinstance(exc, MemoryError):
        return 'error'
    if core.touches_code_under_test(exc):
        return 'violation'
    if isinstance(exc, (LookupError, TypeError, ValueError, ArithmeticError)):
        # what the code under test returned does not have the shape, the
        # entries or the types that the oracle reads
        return 'violation'
    return 'error'


def main():
    job = json.loads(Path(sys.argv[1]).read_text())
    out = Path(job['out'])
    out.mkdir(parents=True, exist_ok=True)
    os.environ['TRV_SCRATCH'] = job['scratch']
    os.chdir(job['scratch'])
    core = setup(job['root'])
    mod = importlib.import_module('props.' + job['property'].lower())
    core.TIER = job['tier']
    sub = find_sub(mod, job['sub'])
    res = {'evaluations': 0, 'keys': [], 'samples': [], 'labels': {},
           'violation': None, 'error': None, 'skipped': 0}
    cur = out / 'current.json'

    def save():
        tmp = out / 'result.tmp'
        tmp.write_text(json.dumps(res))
        tmp.rename(out / 'result.json')

    if job.get('case') is not None:          # replay
        cur.write_text(dump(job['case']))
        try:
            info = sub.run(job['case'])
            res['evaluations'] = 1
            res['labels'] = {k: 1 for k in info.get('labels', [])}
        except Exception as exc:
            kind = classify(core, exc)
            res['violation' if kind == 'violation' else 'error'] = {
                'case': job['case'], 'message': f'{type(exc).__name__}: {exc}',
                'traceback': traceback.format_exc()[-4000:]}
        save()
        return

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    if hasattr(engine, 'MAX_SHRINKING_SECONDS'):
        engine.MAX_SHRINKING_SECONDS = job.get('shrink_seconds', 40)
    # Hypothesis perturbs nothing of ours: no database, explicit seed
    deadline = time.time() + job['seconds']
    failing = {}
    keys = set()
    t_shrink = []

    @hypothesis.seed(job['seed'])
    @settings(
        max_examples=job['examples'], database=None, deadline=None,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
        report_multiple_bugs=False, print_blob=False,
    )
    @given(sub.strategy())
    def test(case):
        now = time.time()
        if not failing and now > deadline:
            res['skipped'] += 1
            return
        if t_shrink and now > t_shrink[0] + job.get('shrink_seconds', 40):
            # stop looking for smaller ones, but keep the found one failing
            if dump(case) != failing['key']:
                return
        text = dump(case)
        cur.write_text(text)
        if not failing:
            res['evaluations'] += 1
        try:
            info = sub.run(case)
        except core.Skip:
            res['skipped'] += 1
            if not failing:
                res['evaluations'] -= 1
            return
        except Exception as exc:
            if isinstance(exc, (hypothesis.errors.HypothesisException,)):
                raise
            kind = classify(core, exc)
            failing.clear()
            failing.update(
                kind=kind, case=case, key=text,
                message=f'{type(exc).__name__}: {exc}',
                traceback=traceback.format_exc()[-4000:])
            if not t_shrink:
                t_shrink.append(time.time())
            if kind == 'error':
                raise AssertionError('harness') from exc
            raise AssertionError('violation') from exc
        if failing:
            return
        for label in info.get('labels', []):
            res['labels'][label] = res['labels'].get(label, 0) + 1
        if info.get('nontrivial'):
            key = hashlib.sha256(text.encode()).hexdigest()[:16]
            if key not in keys:
                keys.add(key)
                if len(res['samples']) < 3 and len(text) < 3000:
                    res['samples'].append(case)

    try:
        test()
    except AssertionError:
        pass
    except hypothesis.errors.Flaky:
        pass
    except Exception as exc:
        if not failing:
            res['error'] = {'case': None, 'message': repr(exc),
                            'traceback': traceback.format_exc()[-4000:]}
    if failing:
        res['violation' if failing['kind'] == 'violation' else 'error'] = {
            k: failing[k] for k in ('case', 'message', 'traceback')}
    res['keys'] = sorted(keys)
    save()


if __name__ == '__main__':
    main()
