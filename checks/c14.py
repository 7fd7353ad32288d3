"""C14: checkpoint files hold exactly the right states."""
import itertools
import os
from pathlib import Path

import h5py
import numpy as np
from tenkit import utils
from mc import models
from mc.fits import Recorder, identical, model
from mc.util import compositions, rng, scratch, raises

ID = 'C14'
LEVEL = 'model_checking'
RULE = ('all checkpoint frequencies {none, -1, 0, 1, 2, 3, 4, 9} x all segmentations of n = 1..5 (thorough 7) iterations x joints {continue, resume '
        'from the file into a fresh decomposer of the same file} x 16 configurations of CP and PARAFAC2, plus further fits into the same file, criteria-stopped fits, refused '
        'loads, no path at all, iteration numbers around 100 000, fits of 130 and 301 iterations with frequencies up to 300 and a file with 8400 checkpoints; the complete file is compared with the recorded states (bit for bit)')
ASSUMPTIONS = ['the segments of a history go forward (no resume from an older iteration into the same file)']
FREQUENCIES = (None, -1, 0, 1, 2, 3, 4, 9)


def jobs(tier, seed):
    n = 7 if tier == 'thorough' else 5
    out = [{'kind': 'segments', 'config': i, 'frequency': f, 'n': n if i in (0, 8) else min(n, 5) if tier == 'thorough' else 4, 'seed': seed}
           for i in range(len(models.CONFIGS)) for f in FREQUENCIES]
    out += [{'kind': 'large', 'config': i, 'seed': seed} for i in (0, 2, 7, 8)]
    out += [{'kind': 'long', 'config': i, 'n': n, 'frequency': f, 'seed': seed} for i in (0, 2, 4, 8, 9, 10)
            for n, fs in ((130, (1, 3, 50, 64, 128, None)), (301, (1, 7, 100, 256, 300))) for f in fs if n == 130 or i in (0, 9)]
    out.insert(0, {'kind': 'many', 'config': 0, 'seed': seed})
    out += [{'kind': 'stopped', 'config': i, 'seed': seed} for i in range(len(models.CONFIGS))]
    out += [{'kind': 'again', 'config': i, 'seed': seed} for i in range(len(models.CONFIGS))]
    out += [{'kind': 'nothing', 'config': i, 'seed': seed} for i in range(len(models.CONFIGS))]
    return out


def run(job, rec):
    config = models.CONFIGS[job['config']]
    with scratch() as tmp:
        {'segments': segments, 'large': large, 'stopped': stopped, 'nothing': nothing, 'again': again, 'long': long, 'many': many}[job['kind']](job, config, rec, tmp)


def expected_checkpoints(ends, frequency, begin=0):
    """Iterations with a checkpoint after segments that end after the given numbers of iterations."""
    out = set()
    for end in ends:
        if frequency is not None and frequency > 0:
            out |= {it for it in range(begin, end) if (it + 1) % frequency == 0}
        if end > begin:
            out.add(end - 1)
        begin = max(begin, end)
    return sorted(out)


def check_file(rec, path, config, states, its, give, info):
    """The file holds the states of exactly these iterations."""
    by_it = {s['it']: s for s in states}
    info = {**info, 'expected': its}
    dec = models.make(config)
    cls = dec.DecompositionType
    with h5py.File(path, 'r') as h5:
        names = sorted(n for n in h5 if n.startswith('checkpoint'))
        rec.check(sorted(names) == sorted(f'checkpoint_{it:05d}' for it in its), 'other checkpoints than expected', checkpoints=names, **info)
        rec.check([int(i) for i in h5.attrs['checkpoint_its']] == its, 'checkpoint index', index=list(h5.attrs['checkpoint_its']), **info)
        rec.check(int(h5.attrs['final_iteration']) == its[-1], 'final iteration', got=int(h5.attrs['final_iteration']), **info)
        for it in its:
            stored = model(cls.load_from_hdf5_group(h5[f'checkpoint_{it:05d}']))
            rec.check(identical(stored, by_it[it]), f'checkpoint {it} is not the decomposition at the end of that iteration', **info)
        order = [g.name.strip('/') for g in utils.iter_checkpoints(h5)]
        rec.check(order == [f'checkpoint_{it:05d}' for it in its], 'checkpoints are not visited in iteration order', got=order, **info)
        visited = [model(cls.load_from_hdf5_group(g)) for g in utils.iter_checkpoints(h5)]
        rec.check(all(identical(m, by_it[it]) for m, it in zip(visited, its)), 'visited checkpoints', **info)
    # loading with and without an iteration number
    dec.fit(give, max_its=0)
    for it in its + [None]:
        dec.load_checkpoint(path, load_it=it) if it is not None else dec.load_checkpoint(path)
        expected = by_it[its[-1] if it is None else it]
        rec.check(identical(model(dec.decomposition), expected), 'loading gives another state', load_it=it, **info)
        rec.check(dec.current_iteration == expected['it'] + 1, 'iteration counter after loading', load_it=it, got=dec.current_iteration, **info)
    for it in {-1, its[-1] + 1, *(i for i in range(its[-1]) if i not in its)}:
        rec.check(raises(dec.load_checkpoint, path, load_it=it) is not None, 'a checkpoint that was not stored is loaded', load_it=it, **info)


def segments(job, config, rec, tmp):
    X = models.data(config, job['seed'])
    give = models.give(config, X)
    frequency = job['frequency']
    number = 0
    for n in range(1, job['n'] + 1):
        for composition in compositions(n):
            for joints in itertools.product(('continue', 'resume'), repeat=len(composition) - 1):
                number += 1
                path = os.path.join(tmp, 'a.h5')
                if os.path.exists(path):
                    os.remove(path)
                log = Recorder(metrics=False)
                options = dict(loggers=[log], checkpoint_path=Path(path) if number % 2 else path, checkpoint_frequency=frequency)
                np.random.seed(number)
                info = dict(model=config['name'], frequency=frequency, segments=composition, joints=joints)
                ends = list(itertools.accumulate(composition))
                dec = models.make(config, max_its=ends[0], **options)
                dec.fit(give)
                for k, end in enumerate(ends):
                    if k and joints[k - 1] == 'continue':
                        dec.continue_fit(max_its=end)
                    elif k:
                        dec = models.make(config, **{**options, 'init': 'from_checkpoint'})
                        dec.fit(give, max_its=end, initial_decomposition=path)
                    if k + 1 == len(ends):
                        check_file(rec, path, config, log.states, expected_checkpoints(ends[:k + 1], frequency), give, info)
                    rec.state((frequency, composition[:k + 1], joints[:k]))
                    rec.transition()
                rec.check(sorted(os.listdir(tmp)) == ['a.h5'], 'other files were written', files=os.listdir(tmp), **info)
                rec.trace()
    rec.sample({'config': config['name'], 'frequency': frequency, 'n': n})


def long(job, config, rec, tmp):
    """Hundreds of iterations."""
    X = models.data(config, job['seed'])
    give = models.give(config, X)
    n, frequency = job['n'], job['frequency']
    for ends in ((n,), (100, n), (n - 1, n), (64, 65, n)):
        for joint in ('continue', 'resume')[:len(ends)]:
            path = os.path.join(tmp, 'a.h5')
            if os.path.exists(path):
                os.remove(path)
            log = Recorder(metrics=False)
            options = dict(loggers=[log], checkpoint_path=path, checkpoint_frequency=frequency)
            np.random.seed(5)
            info = dict(model=config['name'], frequency=frequency, ends=ends, joint=joint)
            dec = models.make(config, **options)
            dec.fit(give, max_its=ends[0])
            for end in ends[1:]:
                if joint == 'continue':
                    dec.continue_fit(max_its=end)
                else:
                    dec = models.make(config, **{**options, 'init': 'from_checkpoint'})
                    dec.fit(give, max_its=end, initial_decomposition=path)
                rec.transition()
            check_file(rec, path, config, log.states, expected_checkpoints(ends, frequency), give, info)
            rec.state((config['name'], frequency, ends, joint))
            rec.trace()
    rec.sample({'config': config['name'], 'frequency': frequency, 'n': n})


def many(job, config, rec, tmp):
    """Thousands of checkpoints in one file."""
    config = {'name': 'small', 'model': 'cp', 'shape': [2, 2, 2], 'rank': 1}
    X = models.data(config, job['seed'])
    path = os.path.join(tmp, 'a.h5')
    n = 8400
    log = Recorder(metrics=False)
    np.random.seed(1)
    dec = models.make(config, checkpoint_path=path, checkpoint_frequency=1, loggers=[log])
    e = raises(dec.fit, X, max_its=n)
    rec.check(e is None, f'a fit with many checkpoints raised {e!r}', iteration=dec.current_iteration)
    check_file(rec, path, config, log.states, list(range(n)), X, {'config': config, 'n': n})
    rec.state(n)
    rec.transition(n)
    rec.trace()
    rec.sample({'config': config, 'n': n})


def large(job, config, rec, tmp):
    """Around iteration 100 000 the names get another digit."""
    X = models.data(config, job['seed'])
    give = models.give(config, X)
    for frequency in (1, 2, 3, None):
        for begin, end in ((99997, 100003), (99998, 100001), (99999, 100002), (9, 12), (98, 103), (999998, 1000002)):
            path = os.path.join(tmp, 'a.h5')
            if os.path.exists(path):
                os.remove(path)
            log = Recorder(metrics=False)
            np.random.seed(3)
            dec = models.make(config, checkpoint_path=path, loggers=[log])
            dec.fit(give, max_its=1)
            # a file as a run of ``begin`` iterations leaves it
            with h5py.File(path, 'a') as h5:
                h5.move('checkpoint_00000', f'checkpoint_{begin - 1:05d}')
                h5.attrs['checkpoint_its'] = [begin - 1]
                h5.attrs['final_iteration'] = begin - 1
            log.states[0]['it'] = begin - 1
            dec = models.make(config, checkpoint_path=path, checkpoint_frequency=frequency, loggers=[log], init='from_checkpoint')
            dec.fit(give, max_its=end - 1, initial_decomposition=path)
            dec.continue_fit(max_its=end)
            its = sorted({begin - 1} | set(expected_checkpoints([end - 1, end], frequency, begin)))
            rec.check([s['it'] for s in log.states] == list(range(begin - 1, end)), 'iteration numbers', config=config['name'], begin=begin)
            with h5py.File(path, 'r') as h5:
                names = sorted((n for n in h5 if n.startswith('checkpoint')), key=lambda s: int(s.split('_')[1]))
                rec.check(names == [f'checkpoint_{it:05d}' for it in its], 'other checkpoints than expected', got=names, expected=its)
                got = [g.name.strip('/') for g in utils.iter_checkpoints(h5)]
                rec.check(got == names, 'checkpoints are not visited in iteration order', got=got, expected=names)
            dec = models.make(config)
            dec.fit(give, max_its=0)
            by_it = {s['it']: s for s in log.states}
            for it in its + [None]:
                dec.load_checkpoint(path, load_it=it)
                rec.check(identical(model(dec.decomposition), by_it[its[-1] if it is None else it]), 'loading gives another state', load_it=it, config=config['name'])
            rec.state((frequency, begin, end, config['name']))
            rec.transition(2)
            rec.trace()
    rec.sample({'config': config['name']})


def stopped(job, config, rec, tmp):
    """Fits that a criterion stops, and continued fits that do nothing."""
    X = models.data(config, job['seed'])
    give = models.give(config, X)
    for tol in (0.5, 0.1, 0.03, 0.01, 0.003, 0.001):
        for frequency in FREQUENCIES:
            path = os.path.join(tmp, 'a.h5')
            if os.path.exists(path):
                os.remove(path)
            log = Recorder(metrics=False)
            np.random.seed(5)
            dec = models.make(config, convergence_tol=tol, checkpoint_path=path, checkpoint_frequency=frequency, loggers=[log])
            dec.fit(give, max_its=12)
            n = len(log.states)
            its = expected_checkpoints([n], frequency)
            info = dict(model=config['name'], frequency=frequency, tolerance=tol, iterations=n)
            check_file(rec, path, config, log.states, its, give, info)
            content = open(path, 'rb').read()
            dec.continue_fit(max_its=n)
            rec.check(len(log.states) == n and open(path, 'rb').read() == content, 'a continued fit without budget changed the file', **info)
            dec.continue_fit(max_its=12)
            if len(log.states) == n:
                rec.check(open(path, 'rb').read() == content, 'a continued fit without iterations changed the file', **info)
            rec.state((config['name'], tol, frequency))
            rec.transition(2)
            rec.trace()
    rec.sample({'config': config['name']})


def again(job, config, rec, tmp):
    """Another fit, or several, into the same file: the newest one is the last."""
    X = models.data(config, job['seed'])
    give = models.give(config, X)
    for frequency in (None, 1, 2, 3):
        for fresh in (True, False):
            for lengths in itertools.chain(itertools.product((1, 2, 3, 4), repeat=2), [(3, 1, 2), (4, 2, 3), (1, 3, 2), (2, 2, 1)]):
                path = os.path.join(tmp, 'a.h5')
                if os.path.exists(path):
                    os.remove(path)
                np.random.seed(7)
                dec, info = None, dict(model=config['name'], frequency=frequency, fits=lengths, fresh=fresh)
                for n in lengths:
                    log = Recorder(metrics=False)
                    if dec is None or fresh:
                        dec = models.make(config, checkpoint_path=path, checkpoint_frequency=frequency)
                    dec.loggers = [log]
                    dec.fit(give, max_its=n)
                    rec.transition()
                    by_it = {s['it']: s for s in log.states}
                    with h5py.File(path, 'r') as h5:
                        rec.check(int(h5.attrs['final_iteration']) == n - 1, 'final iteration', got=int(h5.attrs['final_iteration']), last=n, **info)
                        index = [int(i) for i in h5.attrs['checkpoint_its']]
                        rec.check(index == sorted(set(index)) and index[-1] == n - 1, 'checkpoint index', index=index, last=n, **info)
                        rec.check(set(expected_checkpoints([n], frequency)) <= set(index), 'checkpoints are missing in the index', index=index, last=n, **info)
                    other = models.make(config)
                    other.fit(give, max_its=0)
                    for it in expected_checkpoints([n], frequency) + [None]:
                        other.load_checkpoint(path, load_it=it)
                        expected = by_it[n - 1 if it is None else it]
                        rec.check(identical(model(other.decomposition), expected), 'loading gives another state', load_it=it, last=n, **info)
                        rec.check(other.current_iteration == expected['it'] + 1, 'iteration counter after loading', load_it=it, last=n, **info)
                rec.state((frequency, fresh, lengths))
                rec.trace()
    rec.sample({'config': config['name']})


def nothing(job, config, rec, tmp):
    """Without a path nothing is written, whatever the frequency."""
    X = models.data(config, job['seed'])
    give = models.give(config, X)
    old = os.getcwd()
    os.chdir(tmp)
    try:
        for frequency in FREQUENCIES:
            for init in ('random', 'svd') if config['rank'] <= min(config.get('shape', [9])) else ('random',):
                dec = models.make(config, checkpoint_frequency=frequency, init=init)
                dec.fit(give, max_its=4)
                dec.continue_fit(max_its=5)
                rec.check(os.listdir(tmp) == [], 'files are written without a path', files=os.listdir(tmp), config=config['name'], frequency=frequency)
                dec = models.make(config, checkpoint_frequency=frequency, checkpoint_path='relative.h5', init=init)
                dec.fit(give, max_its=0)
                rec.check(os.listdir(tmp) == [], 'a file is written without an iteration', config=config['name'], frequency=frequency)
                rec.state((frequency, init))
                rec.transition(3)
    finally:
        os.chdir(old)
    rec.sample({'config': config['name']})
