"""C15: loggers record every iteration once, in memory and on disk."""
import itertools
import os

import h5py
import numpy as np
from tenkit.decomposition import CP_ALS, Parafac2_ALS
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.logging import (BaseLogger, ExplainedVarianceLogger, LossLogger, MSELogger, RMSELogger, SSELogger)
from mc import fits, models
from mc.fits import Recorder
from mc.util import compositions, rng, scratch

ID = 'C15'
LEVEL = 'model_checking'
RULE = ('all sequences of {log, write} up to length 9 (thorough 12) for every logger class, alone and several kinds together, against a list; all '
        'checkpoint frequencies {none, 1, 2, 3, 5} x all segmentations of n = 1..5 iterations x joints {continue, resume with fresh loggers '
        'and file kept}, and up to two further fits or returns to an earlier checkpoint with the same loggers, x 16 configurations with all loggers in different orders; the file is read back after every single checkpoint; fits of 300 and 1300 iterations')
ASSUMPTIONS = ['at most one logger of each class per decomposer (they share a group of the file)']
KINDS = {'LossLogger': (LossLogger, 'loss'), 'MSELogger': (MSELogger, 'MSE'), 'SSELogger': (SSELogger, 'SSE'), 'RMSELogger': (RMSELogger, 'RMSE'),
         'ExplainedVarianceLogger': (ExplainedVarianceLogger, 'explained_variance')}
FREQUENCIES = (None, 1, 2, 3, 5)


class NumberLogger(BaseLogger):
    """A logger as users write them."""

    def _log(self, decomposer):
        self.log_metrics.append(decomposer.current_iteration*10)


def jobs(tier, seed):
    out = [{'kind': 'direct', 'length': n, 'seed': seed} for n in range(1, (13 if tier == 'thorough' else 10))]
    out += [{'kind': 'fits', 'config': i, 'frequency': f, 'n': 5 if i in (0, 8) or tier == 'thorough' else 4, 'seed': seed}
            for i in range(len(models.CONFIGS)) for f in FREQUENCIES]
    out = [{'kind': 'long', 'config': i, 'frequency': f, 'segments': segments, 'seed': seed}
           for i, n in ((0, 1300), (2, 300), (8, 300)) for f in (None, 1, 7, 100, 256, 300)
           for segments in ((n,), (256, n - 256), (100, 1, n - 101))] + out
    out += [{'kind': 'cmtf', 'seed': seed}]
    return out


def run(job, rec):
    with scratch() as tmp:
        {'direct': direct, 'fits': histories, 'cmtf': cmtf, 'long': long}[job['kind']](job, rec, tmp)


class Fake:
    """Decomposer with distinct metrics."""
    current_iteration = 0

    def step(self, n):
        self.current_iteration = n
        for i, name in enumerate(('loss', 'MSE', 'SSE', 'RMSE', 'explained_variance')):
            # first values that single precision can hold, then others
            setattr(self, name, 1000*(i + 1) + n + 0.25 if n < 5 else (1000*(i + 1) + n + 1/3)*10.0**((n % 3)*20))


def read(path, name):
    with h5py.File(path, 'r') as h5:
        if name not in h5:
            return None
        # Python numbers: a comparison with single-precision numbers would be made in single precision
        return h5[name]['iterations'][...].tolist(), h5[name]['values'][...].tolist()


def direct(job, rec, tmp):
    length = job['length']
    path = os.path.join(tmp, 'a.h5')
    groups = [[k] for k in KINDS] + [list(KINDS), ['SSELogger', 'LossLogger']] if length <= 5 else [['LossLogger', 'MSELogger'], ['ExplainedVarianceLogger']]
    for names in groups:
        for ops in itertools.product(('log', 'write'), repeat=length):
            if ops[-1] == 'log':
                continue
            if os.path.exists(path):
                os.remove(path)
            loggers = [KINDS[k][0]() for k in names]
            fake, n = Fake(), 0
            expected = {k: [] for k in names}
            for op in ops:
                if op == 'log':
                    fake.step(3 + n)
                    for k, logger in zip(names, loggers):
                        logger.log(fake)
                        expected[k].append((3 + n, getattr(fake, KINDS[k][1])))
                    n += 1
                else:
                    with h5py.File(path, 'a') as h5:
                        for logger in loggers:
                            logger.write_to_hdf5_group(h5)
                    if not n:
                        continue
                    for k, logger in zip(names, loggers):
                        got = read(path, k)
                        rec.check(got is not None and list(zip(*got)) == expected[k], 'the log on disk is not the recorded sequence', logger=k, ops=ops,
                                  got=got, expected=expected[k])
                for k, logger in zip(names, loggers):
                    rec.check(list(zip(logger.log_iterations, logger.log_metrics)) == expected[k] and len(logger.log_metrics) == n
                              and len(logger.log_iterations) == n, 'the log in memory is not the recorded sequence', logger=k, ops=ops)
                rec.transition()
            rec.state((names, ops))
            rec.trace()
    rec.sample({'length': length})


def long(job, rec, tmp):
    """Hundreds of iterations."""
    config, frequency = models.CONFIGS[job['config']], job['frequency']
    X = models.data(config, job['seed'])
    cls = spying(CP_ALS if config['model'] == 'cp' else Parafac2_ALS)
    n = sum(job['segments'])
    if frequency == 1 and n > 300:
        return
    for number, joint in enumerate(('continue', 'resume') if len(job['segments']) > 1 else ('continue',)):
        history(config, frequency, cls, X, models.give(config, X), job['segments'], (joint,)*(len(job['segments']) - 1), number, rec, tmp)
    rec.sample({'config': config['name'], 'frequency': frequency, 'n': n})


def spying(base):
    class Spy(base):
        """Reads the file back after every checkpoint."""
        after_checkpoint = None

        def store_checkpoint(self):
            super().store_checkpoint()
            if self.after_checkpoint is not None:
                self.after_checkpoint(self)
    return Spy


def histories(job, rec, tmp):
    config, frequency, seed = models.CONFIGS[job['config']], job['frequency'], job['seed']
    X = models.data(config, seed)
    give = models.give(config, X)
    cls = spying(CP_ALS if config['model'] == 'cp' else Parafac2_ALS)
    number = 0
    for n in range(1, job['n'] + 1):
        for composition in compositions(n):
            for joints in itertools.product(('continue', 'resume'), repeat=len(composition) - 1):
                number += 1
                history(config, frequency, cls, X, give, composition, joints, number, rec, tmp)
    tails = (('refit', 1), ('refit', 2), ('refit', 4), ('rewind', 0), ('rewind', 2))
    for first in (1, 3):
        for tail in itertools.chain(itertools.product(tails, repeat=1), itertools.product(tails, repeat=2)):
            number += 1
            history(config, frequency, cls, X, give, (first,), (), number, rec, tmp, tail)
    rec.sample({'config': config['name'], 'frequency': frequency, 'n': n})


def history(config, frequency, cls, X, give, composition, joints, number, rec, tmp, tail=()):
    path = os.path.join(tmp, 'a.h5')
    if os.path.exists(path):
        os.remove(path)
    info = dict(config=config['name'], frequency=frequency, segments=composition, joints=joints, tail=tail)
    names = list(KINDS) + ['NumberLogger']
    names = names[number % 6:] + names[:number % 6]
    every = Recorder()       # all states over all segments
    world = {}

    def fresh(**options):
        world['loggers'] = {k: KINDS[k][0]() if k in KINDS else NumberLogger() for k in names}
        world['first'] = len(every.states)
        loggers = list(world['loggers'].values())
        loggers.insert(number % 3, every)
        dec = models.make(config, cls=cls, loggers=loggers, checkpoint_path=path, checkpoint_frequency=frequency, **options)
        dec.after_checkpoint = on_disk
        return dec

    def value(k, s):
        return float(s[KINDS[k][1]]) if k in KINDS else s['it']*10

    def close(k, a, s):
        b = value(k, s)
        if k == 'NumberLogger':
            return a == b
        # equal to the metric by its definition, up to the rounding of the data norm
        return abs(a - b) <= 1e-9*(abs(b) + world['scale'])

    def on_disk(dec):
        states = every.states
        for k in names:
            got = read(path, k)
            rec.check(got is not None and [int(i) for i in got[0]] == [s['it'] for s in states], 'iterations on disk', logger=k,
                      got=got and got[0], expected=[s['it'] for s in states], **info)
            rec.check(len(got[1]) == len(states) and all(close(k, a, s) for a, s in zip(got[1], states)), 'values on disk', logger=k,
                      got=got[1], expected=[value(k, s) for s in states], **info)
        world['checkpoints'] = world.get('checkpoints', 0) + 1
        rec.transition()

    def compare(expected, k=0, number_done=0):
        rec.check([s['it'] for s in every.states] == expected, 'a logger is not called exactly once per iteration',
                  iterations=[s['it'] for s in every.states], expected=expected, **info)
        mine = every.states[world['first']:]
        for name, logger in world['loggers'].items():
            rec.check([int(i) for i in logger.log_iterations] == [s['it'] for s in mine] and len(logger.log_metrics) == len(mine), 'iterations in memory',
                      logger=name, got=list(logger.log_iterations), expected=[s['it'] for s in mine], **info)
            rec.check(all(close(name, a, s) for a, s in zip(logger.log_metrics, mine)), 'values in memory', logger=name,
                      got=list(logger.log_metrics), expected=[value(name, s) for s in mine], **info)
        # the metrics of the recorded states, by their definitions (loggers have to see the state of their iteration)
        for s in mine:
            sse = fits.cp_sse(X, s) if config['model'] == 'cp' else fits.pf2_sse(X, s)
            rec.check(abs(s['SSE'] - sse) <= 1e-9*world['scale'], 'the model passed to the loggers does not have the logged error', iteration=s['it'], **info)
        on_disk(dec)
        rec.state((frequency, composition[:k + 1], joints[:k], tail[:number_done], config['name']))
        rec.transition()

    world['scale'] = float(np.sum(X**2)) if config['model'] == 'cp' else float(sum(np.sum(x**2) for x in X))
    np.random.seed(number)
    ends = list(itertools.accumulate(composition))
    dec = fresh()
    dec.fit(give, max_its=ends[0])
    for k, end in enumerate(ends):
        if k and joints[k - 1] == 'continue':
            dec.continue_fit(max_its=end)
        elif k:
            dec = fresh(init='from_checkpoint')
            dec.fit(give, max_its=end, initial_decomposition=path)
        compare(list(range(end)), k)
    expected = list(range(ends[-1]))
    for n, (op, its) in enumerate(tail):
        # the same decomposer and loggers are used for another fit, or go back to an earlier checkpoint
        if op == 'refit':
            dec.fit(give, max_its=its)
            expected = expected + list(range(its))
        else:
            with h5py.File(path, 'r') as h5:
                load_it = int(h5.attrs['checkpoint_its'][0])
            dec.load_checkpoint(path, load_it=load_it)
            dec.continue_fit(max_its=load_it + 1 + its)
            expected = expected + list(range(load_it + 1, load_it + 1 + its))
        compare(expected, 0, n + 1)
    rec.trace()


def cmtf(job, rec, tmp):
    """Coupled fits call the loggers in the same way."""
    r = rng(15, 'cmtf', job['seed'])
    X = r.standard_normal((4, 3, 3))
    Y = r.standard_normal((4, 5))
    for frequency in FREQUENCIES:
        for n in (1, 2, 3, 4, 5, 6):
            path = os.path.join(tmp, 'a.h5')
            if os.path.exists(path):
                os.remove(path)
            loggers = {k: v[0]() for k, v in KINDS.items()}
            every = Recorder()
            dec = CMTF_ALS(2, convergence_tol=-1, rel_loss_tol=-1, loggers=[every, *loggers.values()], checkpoint_path=path, checkpoint_frequency=frequency)
            dec.fit(X, [Y], [0], max_its=n)
            dec.continue_fit(max_its=n + 2)
            for k, logger in loggers.items():
                expected = [(s['it'], s[KINDS[k][1]]) for s in every.states]
                rec.check([e[0] for e in expected] == list(range(n + 2)), 'iterations of a coupled fit', logger=k)
                for got in ((logger.log_iterations, logger.log_metrics), read(path, k)):
                    rec.check([int(i) for i in got[0]] == list(range(n + 2)) and np.allclose(got[1], [e[1] for e in expected], rtol=1e-9, atol=1e-9),
                              'log of a coupled fit', logger=k, got=got, expected=expected, frequency=frequency)
            rec.state((frequency, n))
            rec.transition()
            rec.trace()
