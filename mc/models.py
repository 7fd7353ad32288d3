"""Small decomposer configurations shared by the history checks."""
import numpy as np
from tenkit.decomposition import CP_ALS, Parafac2_ALS
from mc.fits import low_rank, pf2_data

CONFIGS = [
    {'name': 'cp3', 'model': 'cp', 'shape': [4, 3, 5], 'rank': 2},
    {'name': 'cp3 nn', 'model': 'cp', 'shape': [3, 4, 4], 'rank': 2, 'nn': [False, True, True], 'kind': 'nonneg'},
    {'name': 'cp3 ridge', 'model': 'cp', 'shape': [3, 4, 2], 'rank': 3, 'ridge': [0.1, 0.3, 0.9]},
    {'name': 'cp3 orth', 'model': 'cp', 'shape': [4, 3, 3], 'rank': 2, 'orth': [False, True, False]},
    {'name': 'cp3 all', 'model': 'cp', 'shape': [4, 3, 3], 'rank': 2, 'orth': [True, False, False], 'nn': [False, True, False], 'ridge': [0, 0.2, 0.4]},
    {'name': 'cp2', 'model': 'cp', 'shape': [3, 4], 'rank': 2},
    {'name': 'cp4', 'model': 'cp', 'shape': [2, 3, 2, 3], 'rank': 2},
    {'name': 'pf2', 'model': 'pf2', 'I': 4, 'J': [4, 4, 4], 'rank': 2, 'tensor': True},
    {'name': 'pf2 irregular', 'model': 'pf2', 'I': 4, 'J': [3, 5, 4], 'rank': 2},
    {'name': 'pf2 ridge', 'model': 'pf2', 'I': 3, 'J': [3, 4, 4, 3], 'rank': 2, 'ridge': [0.1, 0.3, 0.9]},
    {'name': 'pf2 nn', 'model': 'pf2', 'I': 4, 'J': [3, 4, 3], 'rank': 2, 'nn': [False, False, True], 'kind': 'nonneg'},
    {'name': 'pf2 one', 'model': 'pf2', 'I': 4, 'J': [3, 3], 'rank': 1, 'cp_updates': 1, 'tensor': True},
    {'name': 'cp3 long', 'model': 'cp', 'shape': [70, 3, 2], 'rank': 2, 'large': True},
    {'name': 'pf2 long', 'model': 'pf2', 'I': 40, 'J': [33, 45, 40], 'rank': 3, 'large': True},
    {'name': 'cp3 counts', 'model': 'cp', 'shape': [4, 3, 5], 'rank': 2, 'types': ['i8']},
    {'name': 'pf2 counts', 'model': 'pf2', 'I': 4, 'J': [4, 5, 4], 'rank': 2, 'types': ['i4', 'f8', 'i8']},
]


def data(config, seed, which=0):
    kind = config.get('kind', 'mixed')
    types = config.get('types')
    if config['model'] == 'cp':
        X = low_rank(config['shape'], config['rank'] + 1, (seed, which), kind)
        return np.round(3*X) if types else X
    X = pf2_data(config['I'], config['J'], config['rank'], (seed, which), kind)
    return [np.round(5*x) if t[0] == 'i' else x for x, t in zip(X, types)] if types else X


def give(config, X):
    """A fresh copy of the data, in the form it is passed to ``fit``."""
    types = config.get('types')
    if types and isinstance(X, list):
        return [x.astype(t) for x, t in zip(X, types)]
    if types:
        return X.astype(types[0])
    if isinstance(X, list):
        return np.stack(X, axis=2) if config.get('tensor') else [x.copy() for x in X]
    return X.copy()


def make(config, cls=None, **kwargs):
    options = dict(convergence_tol=-1, init='random', non_negativity_constraints=config.get('nn'),
                   ridge_penalties=config.get('ridge'), orthonormality_constraints=config.get('orth'))
    if config['model'] == 'cp':
        options['rel_loss_tol'] = -1
    else:
        options.update(print_frequency=-1, cp_updates_per_it=config.get('cp_updates', 3))
    options.update(kwargs)
    cls = cls or (CP_ALS if config['model'] == 'cp' else Parafac2_ALS)
    return cls(config['rank'], **options)
