"""Driver shared by all checks: jobs, counting, violations, known findings, evidence.

A check module defines

    ID, LEVEL, RULE, ASSUMPTIONS
    def jobs(tier, seed) -> list of JSON-serialisable job descriptions
    def run(job, rec)    -> explores everything the job describes, using ``rec``

Every job is executed in a pool of processes.  ``rec.check(cond, msg, **case)`` is the
oracle: the first false condition of a job ends that job with a violation.  An exception
that escapes from a job is a violation as well (the code under test raised, or returned
something that the oracle could not even read), and so is a job that does not end.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
EVIDENCE = ROOT / 'evidence'
KNOWN = ROOT / 'KNOWN_FINDINGS.json'
JOB_TIMEOUT = 400


class Violation(Exception):
    def __init__(self, message, case):
        super().__init__(message)
        self.message = message
        self.case = case


def digest(obj):
    """Hash of nested python/numpy data (exact content)."""
    h = hashlib.blake2b(digest_size=8)
    _feed(h, obj)
    return int.from_bytes(h.digest(), 'big')


def _feed(h, obj):
    import numpy as np
    if isinstance(obj, np.ndarray):
        h.update(b'a' + str(obj.dtype).encode() + str(obj.shape).encode())
        h.update(np.ascontiguousarray(obj).tobytes())
    elif isinstance(obj, (list, tuple)):
        h.update(b'(' if isinstance(obj, tuple) else b'[')
        for o in obj:
            _feed(h, o)
        h.update(b')')
    elif isinstance(obj, dict):
        for k in sorted(obj, key=str):
            _feed(h, k)
            _feed(h, obj[k])
    else:
        h.update(repr(obj).encode() + b';')


class Rec:
    """Counters and oracle of one job."""

    def __init__(self, pid, known=()):
        self.pid = pid
        self.evaluations = 0
        self.distinct = set()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.known_keys = set(known)
        self.known_hits = {}
        self.notes = {}

    def evaluated(self, key=None, n=1):
        """One case was decided; ``key`` is its content if it is not trivial."""
        self.evaluations += n
        if key is not None:
            self.distinct.add(digest(key))

    def state(self, key):
        """Returns True if the state was not seen before in this job."""
        k = digest(key)
        new = k not in self.states
        self.states.add(k)
        return new

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(to_json(obj))

    def check(self, cond, message, **case):
        if not cond:
            raise Violation(message, to_json(case))

    def finding(self, key, message, **case):
        """A violation that is listed as known finding is only recorded."""
        if key in self.known_keys:
            self.known_hits[key] = message
        else:
            raise Violation(message, to_json(case))


def to_json(obj):
    import numpy as np
    if isinstance(obj, np.ndarray):
        return {'shape': list(obj.shape), 'dtype': str(obj.dtype), 'data': to_json(obj.ravel()[:200].tolist())}
    if isinstance(obj, (np.floating, np.integer, np.bool_)):
        return obj.item()
    if isinstance(obj, dict):
        return {str(k): to_json(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [to_json(v) for v in obj]
    if isinstance(obj, complex):
        return repr(obj)
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    return repr(obj)


class _Timeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise _Timeout()


def _fill_new_memory():
    """Arrays whose contents are undefined hold NaN, in every run, so that it shows if they are read before they are written."""
    import numpy as np

    def filling(function):
        def filled(*args, **kwargs):
            out = function(*args, **kwargs)
            if type(out) is np.ndarray and out.dtype.kind in 'fc':
                out.fill(np.nan)
            return out
        filled.poisoned = True
        return filled

    for name in ('empty', 'empty_like'):
        if not hasattr(getattr(np, name), 'poisoned'):
            setattr(np, name, filling(getattr(np, name)))


def _run_job(modname, job, known):
    import importlib
    import warnings
    rec = None
    try:
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(JOB_TIMEOUT)
        try:
            mod = importlib.import_module(modname)
            rec = Rec(mod.ID, known)
            import numpy as np
            np.seterr(all='ignore')
            _fill_new_memory()
            np.random.seed(12345)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with open(os.devnull, 'w') as devnull:
                    stdout, sys.stdout = sys.stdout, devnull
                    try:
                        mod.run(job, rec)
                    finally:
                        sys.stdout = stdout
            violation = None
        finally:
            signal.alarm(0)
    except Violation as e:
        violation = {'message': e.message, 'case': e.case}
    except _Timeout:
        violation = {'message': f'job did not end within {JOB_TIMEOUT} s', 'case': {}}
    except BaseException as e:
        tb = traceback.format_exc()
        violation = {'message': f'unexpected {type(e).__name__}: {e}', 'case': {'traceback': tb[-3000:]}}
    if rec is None:
        rec = Rec('?')
    return {
        'job': job, 'violation': violation, 'evaluations': rec.evaluations, 'distinct': len(rec.distinct),
        'states': len(rec.states), 'transitions': rec.transitions, 'traces': rec.traces,
        'samples': rec.samples, 'known': rec.known_hits, 'notes': rec.notes,
    }


def known_findings(pid):
    if not KNOWN.is_file():
        return {}
    data = json.loads(KNOWN.read_text())
    return {f['key']: f for f in data.get('findings', []) if f['property'] == pid}


def write_evidence(mod, tier, seed, totals, wall, violations):
    EVIDENCE.mkdir(exist_ok=True)
    cov = dict(totals)
    samples = cov.pop('samples')
    notes = cov.pop('notes')
    coverage = {'jobs': cov['jobs'], 'rule': mod.RULE, 'samples': samples, 'exhaustive': violations == 0}
    if mod.LEVEL == 'model_checking':
        coverage.update(states=cov['states'], transitions=cov['transitions'],
                        traces_validated_against_impl=cov['traces'])
        if cov['evaluations']:
            coverage['evaluations'] = cov['evaluations']
    else:
        coverage.update(evaluations=cov['evaluations'], distinct_nontrivial=cov['distinct'])
        if cov['states']:
            coverage.update(states=cov['states'], transitions=cov['transitions'])
    if notes:
        coverage['counts'] = notes
    data = {
        'property': mod.ID, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': coverage,
        'assumptions': list(mod.ASSUMPTIONS), 'wall_s': round(wall, 2), 'violations': violations,
    }
    (EVIDENCE / f'{mod.ID}.json').write_text(json.dumps(data, indent=1) + '\n')


class _Stub:
    LEVEL, RULE, ASSUMPTIONS = 'exploration', 'none: the code under test could not be imported', []

    def __init__(self, pid):
        self.ID = pid


def report_violation(pid, violation, job):
    replay_dir = EVIDENCE / 'replay'
    replay_dir.mkdir(parents=True, exist_ok=True)
    path = replay_dir / f'{pid}.json'
    path.write_text(json.dumps({'property': pid, 'job': job, **violation}, indent=1) + '\n')
    print(f'{pid}: {violation["message"]}')
    print(json.dumps(violation['case'])[:3000])
    print(f'VIOLATION property={pid} replay={path}', flush=True)


def main(*args):
    """Runs the check with one temporary directory for all jobs, which is removed afterwards."""
    import shutil
    import tempfile
    tmp = tempfile.mkdtemp(prefix='mc_')
    os.environ['TMPDIR'] = tempfile.tempdir = tmp
    try:
        return _main(*args)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _main(pid, tier, seed, replay=None, workers=None, only=None):
    import importlib
    t0 = time.time()
    modname = f'checks.{pid.lower()}'
    totals = dict(jobs=0, evaluations=0, distinct=0, states=0, transitions=0, traces=0, samples=[], notes={})
    try:
        mod = importlib.import_module(modname)
        jobs = mod.jobs(tier, seed)
    except Exception as e:
        write_evidence(_Stub(pid), tier, seed, totals, time.time() - t0, 1)
        report_violation(pid, {'message': f'cannot import the code under test: {e!r}',
                               'case': {'traceback': traceback.format_exc()[-3000:]}}, None)
        return 1
    if replay:
        jobs = [json.loads(Path(replay).read_text())['job']]
    if only is not None:
        jobs = [jobs[only]]
    known = known_findings(pid)
    hits = {}
    violation = None
    workers = workers or min(8, os.cpu_count() or 1, max(1, len(jobs)))
    # The seed permutes the order of the exploration (and jobs may use it as data family).
    order = list(range(len(jobs)))
    if not replay:
        import random
        random.Random(seed).shuffle(order)
    def consume(res):
        nonlocal violation
        totals['jobs'] += 1
        for k in ('evaluations', 'distinct', 'states', 'transitions', 'traces'):
            totals[k] += res[k]
        for k, n in res['notes'].items():
            totals['notes'][k] = totals['notes'].get(k, 0) + n
        if len(totals['samples']) < 5:
            totals['samples'] += res['samples'][:1]
        hits.update(res['known'])
        if res['violation'] and violation is None:
            violation = (res['violation'], res['job'])

    if workers == 1:
        for i in order:
            consume(_run_job(modname, jobs[i], tuple(known)))
            if violation:
                break
    else:
        import multiprocessing
        pool = ProcessPoolExecutor(workers, mp_context=multiprocessing.get_context('fork'))
        try:
            futures = {pool.submit(_run_job, modname, jobs[i], tuple(known)): i for i in order}
            for fut in as_completed(futures):
                try:
                    consume(fut.result())
                except BrokenProcessPool:
                    violation = violation or ({'message': 'the process running a job died', 'case': {}},
                                              jobs[futures[fut]])
                if violation:
                    for f in futures:
                        f.cancel()
                    break
        finally:
            if violation:
                for p in list(getattr(pool, '_processes', {}).values()):
                    p.kill()
            pool.shutdown(wait=not violation, cancel_futures=True)
    for key in sorted(hits):
        print(f'KNOWN-FINDING: property={pid} {known[key]["what"]}')
    wall = time.time() - t0
    write_evidence(mod, tier, seed, totals, wall, int(violation is not None))
    print(f'{pid} [{tier}] jobs={totals["jobs"]} evaluations={totals["evaluations"]} distinct={totals["distinct"]} '
          f'states={totals["states"]} transitions={totals["transitions"]} traces={totals["traces"]} '
          f'{json.dumps(totals["notes"])} wall={wall:.1f}s')
    if violation:
        report_violation(pid, *violation)
        return 1
    return 0
