"""C10: reported fit metrics always equal their definitions.

All sequences of operations on a decomposer up to a depth; after every operation, and at
every logger call inside the fits, all metrics are compared with their definitions, computed
from copies of the current factors and the current data.
"""
import itertools
import os

import numpy as np
from tenkit.decomposition import CP_ALS, Parafac2_ALS
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from mc import fits
from mc.fits import Recorder, low_rank, pf2_data, snapshot
from mc.util import rng, scratch

ID = 'C10'
LEVEL = 'model_checking'
RULE = ('all sequences up to depth 3 (thorough 4) over {empty fit, fit, fit of data of another shape, continue, normalise, edit a factor '
        'in place, replace the decomposition, load checkpoint, set another target, change the array of the data and fit it again}, for CP (orders 2-4, constraints, ridge) and '
        'PARAFAC2 (tensor and slices of different lengths, constraints, ridge); all five metrics in every state and logger call; '
        'fits of 140 (without ridge 520) iterations of all configurations and fits of large data (up to 270 slices, 300 rows, 48000 entries, 10 components, order 7)')
ASSUMPTIONS = ['equality up to rounding: 1e-9 of the squared norm of the data and of the terms of the model']


CONFIGS = [
    {'model': 'cp', 'shape': [3, 4], 'other': [4, 3], 'rank': 2},
    {'model': 'cp', 'shape': [3, 4, 2], 'other': [2, 3, 3], 'rank': 2},
    {'model': 'cp', 'shape': [3, 4, 2], 'other': [3, 4, 3], 'rank': 3, 'ridge': [0.1, 0.3, 0.9]},
    {'model': 'cp', 'shape': [3, 4, 2], 'other': [5, 4, 2], 'rank': 2, 'ridge': [0, 2.5, 0], 'nn': [True, False, True]},
    {'model': 'cp', 'shape': [4, 3, 3], 'other': [3, 3, 3], 'rank': 2, 'orth': [False, True, False]},
    {'model': 'cp', 'shape': [4, 3, 3], 'other': [3, 3, 3], 'rank': 2, 'kind': 'exact'},
    {'model': 'cp', 'shape': [4, 3, 3], 'other': [3, 3, 3], 'rank': 1, 'kind': 'exact'},
    {'model': 'cp', 'shape': [2, 3, 2, 3], 'other': [3, 2, 2, 2], 'rank': 2, 'ridge': [0.1, 0.2, 0.3, 0.4]},
    {'model': 'cp', 'shape': [2, 3, 2, 3], 'other': [2, 2, 3, 2], 'rank': 3, 'kind': 'scaled'},
    {'model': 'cp', 'shape': [2, 1, 2, 1, 3], 'other': [1, 2, 2, 2, 2], 'rank': 1},
    {'model': 'pf2', 'I': 4, 'J': [3, 3, 3], 'other': [3, 3], 'rank': 2, 'tensor': True},
    {'model': 'pf2', 'I': 4, 'J': [3, 5, 4], 'other': [4, 2, 3, 3], 'rank': 2},
    {'model': 'pf2', 'I': 3, 'J': [2, 3, 4], 'other': [3, 3, 3], 'rank': 2, 'ridge': [0.1, 0.3, 0.9]},
    {'model': 'pf2', 'I': 3, 'J': [4, 3], 'other': [2, 2], 'rank': 2, 'nn': [True, False, True], 'ridge': [0.1, 0, 0.2]},
    {'model': 'pf2', 'I': 5, 'J': [3, 3, 3], 'other': [3, 3, 4], 'rank': 1, 'orth': [True, False, False], 'tensor': True},
    {'model': 'pf2', 'I': 3, 'J': [3, 3], 'other': [3, 3], 'rank': 2, 'tensor': True, 'cp_updates': 1},
    {'model': 'cp', 'shape': [3, 4, 2], 'other': [2, 3, 3], 'rank': 2, 'types': ['i8']},
    {'model': 'pf2', 'I': 4, 'J': [3, 4, 3], 'other': [3, 3], 'rank': 2, 'types': ['i4', 'f8', 'i8']},
    {'model': 'pf2', 'I': 4, 'J': [3, 3, 3], 'other': [3, 4], 'rank': 2, 'types': ['i8'], 'tensor': True},
]
LARGE = [
    {'model': 'cp', 'shape': [20, 15, 10], 'other': [8, 9, 10], 'rank': 6},
    {'model': 'cp', 'shape': [70, 4, 3], 'other': [3, 66, 4], 'rank': 3, 'ridge': [0.1, 0.2, 7]},
    {'model': 'cp', 'shape': [2, 3, 130], 'other': [130, 2, 3], 'rank': 3, 'nn': [True, False, True]},
    {'model': 'cp', 'shape': [12, 11, 12], 'other': [12, 12, 12], 'rank': 10},
    {'model': 'cp', 'shape': [2, 2, 2, 2, 2, 2], 'other': [3, 2, 2, 2, 2, 2], 'rank': 2},
    {'model': 'pf2', 'I': 12, 'J': [9, 12, 10, 11]*9, 'other': [12]*40, 'rank': 5},
    {'model': 'pf2', 'I': 70, 'J': [66, 33, 5], 'other': [70, 70, 70], 'rank': 4, 'ridge': [0.1, 0.2, 0.3]},
    {'model': 'pf2', 'I': 9, 'J': [66, 66, 66], 'other': [70, 3], 'rank': 3, 'tensor': True},
    {'model': 'cp', 'shape': [300, 4, 3], 'other': [3, 4, 600], 'rank': 2},
    {'model': 'cp', 'shape': [40, 40, 30], 'other': [40, 50, 30], 'rank': 4},
    {'model': 'cp', 'shape': [2, 1, 2, 3, 1, 2, 2], 'other': [2]*8, 'rank': 2, 'ridge': [0.1]*8},
    {'model': 'pf2', 'I': 4, 'J': [3]*130, 'other': [4]*270, 'rank': 2, 'tensor': True},
    {'model': 'pf2', 'I': 4, 'J': [3, 4, 5]*90, 'other': [3]*130, 'rank': 2, 'ridge': [0.1, 0.2, 0.3]},
    {'model': 'pf2', 'I': 9, 'J': [12]*34, 'other': [13]*3, 'rank': 3, 'tensor': True, 'nn': [True, False, False]},
]
OPS = ('fit 0', 'fit 2', 'fit other', 'continue', 'normalise', 'edit', 'replace', 'load', 'target', 'change')
FITS = ('fit 0', 'fit 2', 'fit other')


def jobs(tier, seed):
    depth = 4 if tier == 'thorough' else 3
    long = [{'config': i, 'long': True, 'seed': seed} for i in range(len(CONFIGS) + len(LARGE))]
    return long + [{'config': i, 'first': first, 'second': second, 'depth': depth, 'seed': seed}
            for i in range(len(CONFIGS)) for first in FITS for second in OPS]


def run(job, rec):
    config = (CONFIGS + LARGE)[job['config']]
    with scratch() as tmp:
        world = World(config, job['seed'], tmp)
        if job.get('long'):
            return long(world, job['config'] < len(CONFIGS), rec)
        for tail in itertools.product(OPS, repeat=job['depth'] - 2):
            history = (job['first'], job['second']) + tail
            explore(world, history, rec)
            rec.trace()
        rec.sample({'config': config, 'history': history})


class World:
    """Data and a checkpoint file that all histories of a configuration use."""

    def __init__(self, config, seed, tmp):
        self.config, self.seed = config, seed
        kind = config.get('kind', 'mixed')
        rank = config['rank']
        if config['model'] == 'cp':
            self.data = low_rank(config['shape'], rank, (10, seed), kind)
            self.other = low_rank(config['other'], rank, (10, seed), 'noise')
            self.target = low_rank(config['shape'], rank, (11, seed), 'noise')
        else:
            self.data = pf2_data(config['I'], config['J'], rank, (10, seed))
            self.other = pf2_data(config['I'] + 1, config['other'], rank, (10, seed))
            self.target = pf2_data(config['I'], config['J'], rank, (11, seed), 'noise')
        types = config.get('types')
        if types:
            for name in ('data', 'other', 'target'):
                X = getattr(self, name)
                setattr(self, name, np.round(4*X) if config['model'] == 'cp' else [np.round(4*x) for x in X])
        self.path = os.path.join(tmp, 'c.h5')
        np.random.seed(5)
        dec = self.make(checkpoint_path=self.path, checkpoint_frequency=1)
        dec.fit(self.give(self.data), max_its=3)

    def give(self, X):
        types = self.config.get('types')
        if types and self.config['model'] == 'cp':
            return X.astype(types[0])
        if types and not self.config.get('tensor'):
            return [x.astype(types[k % len(types)]) for k, x in enumerate(X)]
        if types:
            X = [x.astype(types[0]) for x in X]
        if self.config.get('tensor') and isinstance(X, list) and len({x.shape for x in X}) == 1:
            return np.stack(X, axis=2)
        return [x.copy() for x in X] if isinstance(X, list) else X.copy()

    def make(self, **kwargs):
        c = self.config
        kwargs.update(convergence_tol=-1, init='random', non_negativity_constraints=c.get('nn'), ridge_penalties=c.get('ridge'),
                      orthonormality_constraints=c.get('orth'))
        if c['model'] == 'cp':
            return CP_ALS(c['rank'], rel_loss_tol=-1, **kwargs)
        return Parafac2_ALS(c['rank'], print_frequency=-1, cp_updates_per_it=c.get('cp_updates', 3), **kwargs)

    def check(self, s, X, rec, history, where):
        """The metrics of a snapshot, against the data X."""
        info = dict(config=self.config, history=history, where=where)
        ridge = self.config.get('ridge')
        if self.config['model'] == 'cp':
            sse, n, norm2 = fits.cp_sse(X, s), X.size, float(np.sum(X**2))
            penalty, size = fits.ridge_term(ridge, s['factors']), fits.cp_size(s)
        else:
            sse, n, norm2 = fits.pf2_sse(X, s), sum(x.size for x in X), float(sum(np.sum(x**2) for x in X))
            penalty, size = fits.ridge_term(ridge, [s['A'], s['F'], s['C']]), fits.pf2_size(s)
        bound = 1e-9*(norm2 + size**2)
        rec.check(abs(s['SSE'] - sse) <= bound, 'SSE is not the squared norm of data minus reconstruction', reported=s['SSE'], expected=sse, **info)
        rec.check(abs(s['MSE'] - s['SSE']/n) <= 1e-12*s['SSE']/n + bound/n, 'MSE is not the SSE over the number of data entries',
                  reported=s['MSE'], expected=s['SSE']/n, **info)
        rec.check(s['MSE'] >= 0 and abs(s['RMSE'] - np.sqrt(s['MSE'])) <= 1e-9*np.sqrt(s['MSE']) + np.sqrt(bound/n)*1e-3, 'RMSE is not the root of the MSE',
                  reported=s['RMSE'], expected=np.sqrt(s['MSE']), **info)
        rec.check(abs(s['explained_variance'] - (1 - sse/norm2)) <= bound/norm2, 'explained variance', reported=s['explained_variance'],
                  expected=1 - sse/norm2, **info)
        rec.check(abs(s['loss'] - sse - penalty) <= bound + 1e-9*penalty, 'loss is not the SSE plus the ridge terms', reported=s['loss'],
                  expected=sse + penalty, **info)
        rec.state((fits.arrays(s), X))


def long(world, small, rec):
    """Many iterations, or large data."""
    history = ('fit', 'continue', 'fit other')
    for total, more in ((130, 140), (3, 20), (255, 520))[:2 if world.config.get('ridge') else 3] if small else ((3, 5),):
        np.random.seed(rng(10, world.seed, 'long').randint(2**31))
        log = Recorder()
        dec = world.make(loggers=[log])
        for step, X in (('fit', world.data), ('continue', world.data), ('fit other', world.other)):
            if step == 'continue':
                dec.continue_fit(max_its=more)
            else:
                dec.fit(world.give(X), max_its=total if step == 'fit' else 3)
            for s in log.states:
                world.check(s, X, rec, history, f'{step}, logger call of iteration {s["it"]}')
            log.states.clear()
            world.check(snapshot(dec), X, rec, history, f'after {step}')
            world.check(snapshot(dec), X, rec, history, f'after {step}, asked again')
            rec.transition()
        rec.trace()
    rec.sample({'config': world.config, 'history': 'long'})


def explore(world, history, rec):
    config, seed = world.config, world.seed
    np.random.seed(rng(10, seed, history[0]).randint(2**31))
    log = Recorder()
    dec = world.make(loggers=[log])
    X = given = None
    changed = False
    for step, op in enumerate(history):
        log.states.clear()
        where = f'after {op} (step {step})'
        if op in FITS:
            changed = op == 'fit other'
            X = world.other if op == 'fit other' else world.data
            given = world.give(X)
            dec.fit(given, max_its={'fit 0': 0, 'fit 2': 2, 'fit other': 1}[op])
        elif op == 'continue':
            dec.continue_fit(max_its=dec.current_iteration + 2)
        elif op == 'normalise':
            if config['model'] == 'cp':
                dec.decomposition.normalize_components()
            else:
                # the counterpart for PARAFAC2: unit columns of A, lengths moved to C
                norms = np.linalg.norm(dec.decomposition.A, axis=0)
                dec.decomposition.A[...] /= norms
                dec.decomposition.C[...] *= norms
        elif op == 'edit':
            (dec.decomposition.factor_matrices[-1] if config['model'] == 'cp' else dec.decomposition.blueprint_B)[...] *= 1.5
        elif op == 'replace':
            r = rng(10, 'replace', seed)
            if config['model'] == 'cp':
                dec.decomposition = KruskalTensor([r.standard_normal(f.shape) for f in dec.decomposition.factor_matrices],
                                                  1 + r.random_sample(config['rank']))
            else:
                d = dec.decomposition
                dec.decomposition = Parafac2Tensor(r.random_sample(d.A.shape), r.random_sample(d.blueprint_B.shape), r.random_sample(d.C.shape),
                                                   [np.linalg.qr(r.standard_normal(p.shape))[0] for p in d.projection_matrices])
        elif op == 'load':
            if changed:
                return   # no checkpoint for this shape
            dec.load_checkpoint(world.path, load_it=1)
        elif op == 'target':
            if changed:
                return
            X = world.target
            given = world.give(X)
            dec.set_target(given)
        elif op == 'change':
            # the user's own array gets other entries and is fitted again
            factor = 3 if config['model'] == 'cp' or config.get('types') else 0.25
            if isinstance(given, list):
                for x in given:
                    x *= factor
                    x[0] += 1
                X = [x.copy() for x in given]
            else:
                given *= factor
                given[0] += 1
                X = given.copy() if config['model'] == 'cp' else [np.array(given[:, :, k]) for k in range(given.shape[2])]
            dec.fit(given, max_its=1)
        rec.transition()
        for s in log.states:
            world.check(s, X, rec, history[:step + 1], f'logger call of iteration {s["it"]}')
        world.check(snapshot(dec), X, rec, history[:step + 1], where)
        world.check(snapshot(dec), X, rec, history[:step + 1], where + ', asked again')
