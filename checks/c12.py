"""C12: splitting a fit over continue, checkpoint and resume changes nothing.

All ways to write N iterations as a sequence of segments, and all ways to join them.
"""
import itertools
import os
from pathlib import Path

import numpy as np
from mc import models
from mc.fits import Recorder, cp_tensor, distance, identical, model, pf2_slices
from mc.util import compositions, rng, scratch, raises

ID = 'C12'
LEVEL = 'model_checking'
RULE = ('all compositions of N = 4 iterations (two configurations 5; thorough one more) x, for every joint, {continue, load latest into a fresh decomposer of the same '
        'file, of a new file, load a chosen checkpoint of a longer run, fit with init from_checkpoint, fit with the file as init} x '
        'checkpoint frequency, for 16 configurations of CP and PARAFAC2; fits of 140 iterations split in two at 22 places (in three at 4) by every joint; every intermediate state is compared with the uninterrupted fit; '
        'all splits of 4 iterations in two between which the model is normalised or rescaled, and stored like that, x every joint')
ASSUMPTIONS = ['equality up to 1e-7 relative', 'no stopping criterion is met on the way']
JOINTS = ('continue', 'latest', 'new file', 'chosen', 'from_checkpoint', 'path as init')
TOL = 1e-7


def jobs(tier, seed):
    out = []
    for i in range(len(models.CONFIGS)):
        N = 5 if i in (0, 8) else 4
        if tier == 'thorough':
            N += 1
        comps = list(compositions(N))
        for k in range(4):
            if 'large' in models.CONFIGS[i] and k > 1 and tier != 'thorough':
                continue
            out.append({'config': i, 'N': N, 'compositions': [c for c in comps[k::4]], 'seed': seed, 'tier': tier})
    # long fits, split once or twice at every tenth iteration and around round numbers
    for i in (0, 2, 3, 4, 8, 9):
        cuts = sorted({1, 2, 31, 49, 50, 63, 64, 65, 98, 99, 100, 101, 127, 128, 129, 137} | set(range(10, 130, 20)))
        comps = [(c, 140 - c) for c in cuts] + [(a, b - a, 140 - b) for a, b in ((1, 100), (64, 65), (99, 101), (128, 129))]
        out += [{'config': i, 'N': 140, 'compositions': comps[k::2], 'frequencies': (1, None, 50, 7), 'seed': seed, 'tier': tier} for k in range(2)]
    out += [{'config': i, 'N': 4, 'rescaled': True, 'seed': seed, 'tier': tier} for i in range(len(models.CONFIGS))]
    return out


def run(job, rec):
    if 'rescaled' in job:
        return rescaled(job, rec)
    config, N, seed = models.CONFIGS[job['config']], job['N'], job['seed']
    X = models.data(config, seed)
    with scratch() as tmp:
        reference = os.path.join(tmp, 'reference.h5')
        log = Recorder(metrics=False)
        np.random.seed(rng(12, seed, config['name']).randint(2**31))
        state = np.random.get_state()
        dec = models.make(config, loggers=[log], checkpoint_path=reference, checkpoint_frequency=1, max_its=N)
        dec.fit(models.give(config, X))
        rec.check([s['it'] for s in log.states] == list(range(N)), 'iterations of the uninterrupted fit', got=[s['it'] for s in log.states])
        expected = log.states
        world = dict(config=config, X=X, tmp=tmp, reference=reference, state=state, expected=expected, N=N)
        for composition in job['compositions']:
            composition = tuple(composition)
            for n, joints in enumerate(itertools.product(JOINTS, repeat=len(composition) - 1)):
                frequency = job.get('frequencies', (1, None, 2, 3))[(n + len(composition)*composition[0]) % 4 if N > 9 else n % 4]
                if len(composition) > 2 and N > 9 and (n + composition[0]) % 4:
                    continue
                history(world, composition, joints, frequency, n, rec)
                rec.trace()
        rec.sample({'config': config['name'], 'N': N})


def rescale(dec, how):
    """Another representation of the same tensor, which satisfies the same constraints."""
    d = dec.decomposition
    if how == 'normalised':
        d.normalize_components()
    elif how == 'weighted':
        weights = np.linspace(0.5, 3, d.rank)
        d.weights = d.weights*weights
        mode = [m for m in range(len(d.factor_matrices)) if not (dec.orthonormality_constraints or [False]*9)[m]][0]
        d.factor_matrices[mode][...] /= weights
    elif how == 'rescaled':
        d.A[...] *= 2
        d.C[...] /= 2


def rescaled(job, rec):
    """The model is written differently between two segments, and stored like that."""
    config, N, seed = models.CONFIGS[job['config']], job['N'], job['seed']
    X = models.data(config, seed)
    tensor = cp_tensor if config['model'] == 'cp' else lambda m: np.concatenate([x.ravel() for x in pf2_slices(m)])
    with scratch() as tmp:
        np.random.seed(rng(12, seed, config['name']).randint(2**31))
        state = np.random.get_state()
        log = Recorder(metrics=False)
        dec = models.make(config, loggers=[log], max_its=N)
        dec.fit(models.give(config, X))
        expected = log.states
        for split in range(1, N):
            for how in ('normalised', 'weighted') if config['model'] == 'cp' else ('rescaled',):
                results = {}
                for joint in ('continue', 'latest', 'from_checkpoint', 'path as init'):
                    info = dict(config=config['name'], segments=(split, N - split), joint=joint, between=how)
                    path = os.path.join(tmp, 'a.h5')
                    if os.path.exists(path):
                        os.remove(path)
                    np.random.set_state(state)
                    log = Recorder(metrics=False)
                    dec = models.make(config, loggers=[log], checkpoint_path=path)
                    dec.fit(models.give(config, X), max_its=split)
                    rescale(dec, how)
                    # The stored model is the result of the last iteration
                    dec.current_iteration = split - 1
                    dec.store_checkpoint()
                    dec.current_iteration = split
                    if joint == 'continue':
                        dec.continue_fit(max_its=N)
                    elif joint == 'latest':
                        dec = models.make(config, loggers=[log])
                        dec.fit(models.give(config, X), max_its=0)
                        dec.load_checkpoint(path)
                        dec.continue_fit(max_its=N)
                    elif joint == 'from_checkpoint':
                        dec = models.make(config, loggers=[log], init='from_checkpoint')
                        dec.fit(models.give(config, X), max_its=N, initial_decomposition=path)
                    else:
                        dec = models.make(config, loggers=[log], init=path, max_its=N)
                        dec.fit(models.give(config, X))
                    rec.check([s['it'] for s in log.states] == list(range(N)), 'iterations are repeated or skipped', iterations=[s['it'] for s in log.states], **info)
                    results[joint] = log.states[split:] + [model(dec.decomposition)]
                    for a, b in zip(results[joint], results['continue']):
                        rec.check(distance(a, b) <= TOL, 'resuming from the stored model differs from continuing with it', difference=distance(a, b), **info)
                    if config.get('ridge') is None:
                        # Without penalties the next iteration only depends on the tensor
                        for a in results[joint][:-1]:
                            x, y = tensor(a), tensor(expected[a['it']])
                            d = np.linalg.norm(x - y)
                            rec.check(d <= 1e-6*np.linalg.norm(y), 'the model differs from that of the uninterrupted fit', difference=d, iteration=a['it'], **info)
                    rec.transition(3)
                    rec.state((config['name'], split, how, joint))
                rec.trace()


def history(world, composition, joints, frequency, n, rec):
    config, X, tmp = world['config'], world['X'], world['tmp']
    path = os.path.join(tmp, 'a.h5')
    if os.path.exists(path):
        os.remove(path)
    log = Recorder(metrics=False)
    done = 0
    dec = None
    info = dict(config=config['name'], segments=composition, joints=joints, checkpoint_frequency=frequency)
    number = 0
    for length, joint in zip(composition, (None,) + joints):
        before = done
        done += length
        give = models.give(config, X)
        options = dict(loggers=[log], checkpoint_path=path if number % 2 else Path(path), checkpoint_frequency=frequency)
        if joint is None:
            np.random.set_state(world['state'])
            dec = models.make(config, **options)
            dec.fit(give, max_its=done)
        elif joint == 'continue':
            dec.continue_fit(max_its=done)
        else:
            source = path
            if joint == 'chosen':
                source = world['reference']
            if joint == 'new file':
                number += 1
                path = os.path.join(tmp, f'b{number}.h5')
                if os.path.exists(path):
                    os.remove(path)
                options['checkpoint_path'] = path
            if joint in ('latest', 'new file', 'chosen'):
                dec = models.make(config, **options)
                dec.fit(give, max_its=0)
                if joint == 'chosen':
                    dec.load_checkpoint(source, load_it=before - 1)
                else:
                    dec.load_checkpoint(source)
                rec.check(dec.current_iteration == before, 'resuming does not continue at the iteration after the stored one',
                          current_iteration=dec.current_iteration, expected=before, **info)
                stored = (world['expected'] if joint == 'chosen' else log.states)[before - 1]
                rec.check(identical(model(dec.decomposition), stored), 'the loaded state is not the stored one',
                          difference=distance(model(dec.decomposition), stored), iteration=before - 1, **info)
                dec.continue_fit(max_its=done)
            elif joint == 'from_checkpoint':
                dec = models.make(config, **{**options, 'init': 'from_checkpoint'})
                dec.fit(give, max_its=done, initial_decomposition=source)
            else:
                dec = models.make(config, **{**options, 'init': str(source), 'max_its': done})
                dec.fit(give)
        rec.transition()
        its = [s['it'] for s in log.states]
        rec.check(its == list(range(done)), 'iterations are repeated or skipped', iterations=its, **info)
        rec.check(dec.current_iteration == done, 'iteration counter', got=dec.current_iteration, expected=done, **info)
        for s in log.states[before:]:
            d = distance(s, world['expected'][s['it']])
            rec.check(d <= TOL, 'the state differs from that of the uninterrupted fit', iteration=s['it'], difference=d, **info)
        d = distance(model(dec.decomposition), world['expected'][done - 1])
        rec.check(d <= TOL, 'the decomposition differs from that of the uninterrupted fit', iterations=done, difference=d, **info)
        rec.state((composition, joints, done, config['name']))
