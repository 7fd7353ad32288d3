"""C08: every CP-ALS iteration is block-optimal and never increases the loss.

All configurations (constraints of every mode x ridge x initialisation x data) are run
through a history with fits of other data, continued fits, normalisations and loaded
checkpoints; a logger records the state after every iteration, and every recorded step has
to be a sequence of exact block minimisations (in some order of the modes).
"""
import itertools
import os

import numpy as np
from tenkit.decomposition import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor
from mc.fits import Recorder, cp_loss, cp_size, explain_step, low_rank, model, ridge_term
from mc.util import rng, scratch

ID = 'C08'
LEVEL = 'model_checking'
RULE = ('all assignments of {free, non-negative, orthonormal} to the modes (orders 2-4; order 5: one or two constrained modes) x ridge '
        '{none, zero, all modes, single mode} x ranks 1..4 (orthonormal: at most the mode length) x start {random, svd, given with '
        'weights} x data families, each through a history fit other data / fit / continue / normalise / continue / load '
        'checkpoint / continue / refit; every iteration of it is decided; fits of 65 (three modes: 240) iterations and fits of large tensors (up to 3000 entries, '
        '300 rows, 10 components, order 6) for the assignments with at most one kind of constraint per mode')
ASSUMPTIONS = ['well defined updates: a non-negative update with (numerically) dependent systems or an orthonormal one with singular '
               'cross-product ends the history (counted)', 'optimality and monotonicity up to rounding (1e-8 of the magnitude of the terms)']
TOL = 1e-8


def jobs(tier, seed):
    shapes = [(2, 3), (4, 3), (2, 3, 2), (3, 2, 4), (1, 3, 2), (3, 3, 3), (2, 2, 3, 2), (3, 2, 2, 2), (2, 2, 1, 3, 2)]
    if tier == 'thorough':
        shapes += [(1, 1), (5, 4, 6), (2, 1, 4), (2, 3, 2, 4), (2, 2, 2, 2, 2)]
    out = []
    for shape in shapes:
        for rank in (1, 2, 3, 4):
            every = list(itertools.product((None, 'nn', 'orth'), repeat=len(shape)))
            if len(shape) == 5:
                every = [c for c in every if sum(x is not None for x in c) <= 2]
            every = [c for c in every if all(x != 'orth' or s >= rank for x, s in zip(c, shape))]
            n = 27 if len(shape) > 3 else 14
            for i in range(0, len(every), n):
                out.append({'shape': shape, 'rank': rank, 'constraints': every[i:i + n], 'seed': seed, 'tier': tier})
    # first the jobs that take long
    return [{'kind': 'long', 'shape': shape, 'rank': rank, 'constraints': c, 'seed': seed, 'tier': tier}
            for shape, rank in LARGE + LONG for c in some_constraints(shape, rank)] + out


LONG = [((4, 3, 5), 2), ((3, 4, 4), 3), ((3, 2, 2, 3), 2), ((5, 4), 2)]
LARGE = [((20, 15, 10), 6), ((70, 4, 3), 3), ((3, 66, 4), 2), ((2, 3, 130), 3), ((12, 11, 12), 10), ((7, 6, 5, 4), 5), ((40, 33), 8), ((2, 2, 2, 2, 2, 2), 2), ((300, 4, 3), 2), ((3, 4, 270), 2)]


def some_constraints(shape, rank):
    n = len(shape)
    out = [(None,)*n, ('nn',)*n, ('nn',) + (None,)*(n - 1), (None,)*(n - 1) + ('nn',)]
    for i, s in enumerate(shape):
        if s >= rank:
            out.append(tuple('orth' if i == j else None for j in range(n)))
            out.append(tuple('orth' if i == j else 'nn' for j in range(n)))
    return out


def ridges(n):
    return [None, [0.0]*n, [0.1*(i + 1) for i in range(n)], [5.0 if i == n - 1 else 0 for i in range(n)], [0.7 if i == 0 else 0 for i in range(n)]]


def start_for(shape, rank, constraints, ridge, weighted, *key):
    r = rng('start', tuple(shape), rank, key)
    factors = [r.standard_normal((s, rank)) for s in shape]
    for i, c in enumerate(constraints):
        if c == 'nn':
            factors[i] = np.abs(factors[i])
        elif c == 'orth':
            factors[i] = np.linalg.qr(factors[i])[0]
    weights = np.ones(rank)
    if weighted and ridge is None and not all(c == 'orth' for c in constraints):
        weights = 0.5 + 2*r.random_sample(rank)
    return KruskalTensor(factors, weights)


def make(job, constraints, ridge, init, **kwargs):
    nn = [c == 'nn' for c in constraints]
    orth = [c == 'orth' for c in constraints]
    return CP_ALS(job['rank'], convergence_tol=-1, rel_loss_tol=-1, init=init, non_negativity_constraints=nn if any(nn) else None,
                  orthonormality_constraints=orth if any(orth) else None, ridge_penalties=ridge, **kwargs)


class Undefined(Exception):
    pass


def follow(rec, X, states, start, constraints, ridge, **info):
    """Checks the recorded iterations that follow ``start`` (None: unknown). Returns the last state."""
    previous = start
    for s in states:
        rec.check(all(np.all(np.isfinite(f)) for f in s['factors']), 'factors are not finite', **info)
        if previous is not None:
            candidates = [previous['factors']]
            if np.any(previous['weights'] != 1):
                candidates = [[f*previous['weights'] if i == j else f for i, f in enumerate(previous['factors'])] for j in range(X.ndim)]
            new = [f if i else f*s['weights'] for i, f in enumerate(s['factors'])] if np.any(s['weights'] != 1) else s['factors']
            defined, found, residuals = True, None, None
            for old in candidates:
                found, residuals, defined = explain_step(X, old, new, constraints, ridge, TOL)
                if found is not None or not defined:
                    break
            if not defined:
                rec.note('histories ended by an update that is not well defined')
                raise Undefined
            rec.check(found is not None, 'the iteration is not a sequence of block minimisations', iteration=s['it'], residuals=residuals,
                      previous=previous['factors'], factors=s['factors'], X=X, **info)
            feasible = all(np.min(f) >= 0 if c == 'nn' else c is None or np.max(np.abs(f.T @ f - np.eye(f.shape[1]))) < 1e-9
                           for f, c in zip(previous['factors'], constraints))
            if feasible and (ridge is None or not np.any(previous['weights'] != 1)):
                before, after = cp_loss(X, previous, ridge), cp_loss(X, s, ridge)
                bound = TOL*(np.sum(X**2) + cp_size(s)**2*1e-3 + cp_size(previous)**2*1e-3 + ridge_term(ridge, s['factors']))
                rec.check(after <= before + bound, 'the loss increased', iteration=s['it'], before=before, after=after,
                          previous=previous['factors'], factors=s['factors'], X=X, **info)
            rec.transition()
        rec.state(s['factors'])
        previous = s
    return previous


def run_long(job, rec):
    """Many iterations, or large data and many components."""
    shape, rank, constraints, seed = tuple(job['shape']), job['rank'], tuple(job['constraints']), job['seed']
    n = len(shape)
    small = np.prod(shape) < 200
    total, more = (45, 65) if small else (4, 6)
    if small and n == 3:
        total, more = 160, 240
    penalties = [None, [0.1*(i + 1) for i in range(n)], [100.] + [1e-4]*(n - 1), [1e-4]*(n - 1) + [30.]]
    for i, ridge in enumerate(penalties):
        for kind in ('mixed', 'scaled') if small else ('mixed', 'noise')[i % 2:i % 2 + 1]:
            X = low_rank(shape, rank, (seed, 'long'), kind)
            info = dict(shape=shape, rank=rank, modes=constraints, penalties=ridge, data=kind)
            np.random.seed(rng(seed, kind, shape).randint(2**31))
            log = Recorder(metrics=False)
            dec = make(job, constraints, ridge, 'precomputed', loggers=[log])
            kt = start_for(shape, rank, constraints, ridge, 0, 'long', seed)
            start = model(kt)
            try:
                dec.fit(X, max_its=total, initial_decomposition=kt)
                rec.check(len(log.states) == total, 'number of iterations', got=len(log.states), expected=total, **info)
                start = follow(rec, X, log.states, start, constraints, ridge, step='long fit', **info)
                log.states.clear()
                dec.continue_fit(max_its=more)
                rec.check(len(log.states) == more - total, 'number of iterations', got=len(log.states), expected=more - total, **info)
                follow(rec, X, log.states, start, constraints, ridge, step='long fit, continued', **info)
            except Undefined:
                pass
            rec.trace()
    rec.sample({'shape': shape, 'rank': rank, 'constraints': constraints})


def run(job, rec):
    if job.get('kind') == 'long':
        return run_long(job, rec)
    n = len(job['shape'])
    kinds = ('mixed', 'nonneg', 'integer', 'exact', 'noise', 'scaled')
    with scratch() as tmp:
        for c, constraints in enumerate(job['constraints']):
            for i, ridge in enumerate(ridges(n)):
                for j, init in enumerate(('precomputed', 'random', 'svd')):
                    if init == 'svd' and job['rank'] > min(job['shape']):
                        continue
                    which = kinds if job['tier'] == 'thorough' else [kinds[(c + i + j) % len(kinds)]]
                    if n == 4 and job['tier'] != 'thorough' and (c + i + j) % 3 and init != 'precomputed':
                        continue
                    for kind in which:
                        try:
                            history(job, constraints, ridge, init, kind, rec, tmp, (c + i + j) % 2)
                        except Undefined:
                            pass
                        rec.trace()
        rec.sample({'shape': job['shape'], 'rank': job['rank'], 'constraints': job['constraints'][0]})


def history(job, constraints, ridge, init, kind, rec, tmp, variant):
    shape, rank, seed = job['shape'], job['rank'], job['seed']
    X = low_rank(shape, rank, seed, kind)
    if kind == 'integer' and (variant or ridge):
        X = X.astype(np.int64 if rank % 2 else np.int32)
    Z = low_rank(shape, rank + 1, (seed, 'z'), 'mixed')
    Y = low_rank([s + 1 for s in shape[:-1]] + [shape[-1]], rank, (seed, 'y'), 'mixed')
    info = dict(shape=shape, rank=rank, modes=constraints, penalties=ridge, init=init, data=kind)
    np.random.seed(rng(seed, kind, tuple(shape)).randint(2**31))
    log = Recorder(metrics=False)
    path = os.path.join(tmp, 'c.h5')
    if os.path.exists(path):
        os.remove(path)
    dec = make(job, constraints, ridge, init, loggers=[log], checkpoint_path=path if variant else None, checkpoint_frequency=1)

    def fit(data, its, key):
        """Fits and checks; the start is given, observed by an empty fit, or unknown."""
        log.states.clear()
        start = None
        if init == 'precomputed':
            kt = start_for(data.shape, rank, constraints, ridge, variant, key, seed)
            start = model(kt)
            dec.fit(data, max_its=its, initial_decomposition=kt)
        elif variant:
            dec.fit(data, max_its=0)
            rec.check(not log.states, 'iterations run without a budget', **info)
            start = model(dec.decomposition)
            dec.continue_fit(max_its=its)
        else:
            dec.fit(data, max_its=its)
        follow(rec, data, log.states, start, constraints, ridge, step=f'fit {key}', **info)

    def further(data, its, what):
        log.states.clear()
        start = model(dec.decomposition)
        dec.continue_fit(max_its=dec.current_iteration + its)
        follow(rec, data, log.states, start, constraints, ridge, step=what, **info)

    if not variant:
        fit(Y, 1, 'other shape')
    fit(X, 3, 'first')
    further(X, 2, 'continued')
    normal = ridge is None and not all(c == 'orth' for c in constraints)
    if normal:
        dec.decomposition.normalize_components()
        further(X, 1, 'continued after normalising')
    if variant:
        dec.load_checkpoint(path, load_it=1)
        further(X, 2, 'continued from checkpoint 1')
        dec.checkpoint_path = None
    fit(Z, 2, 'refit')
    further(Z, 1, 'continued refit')
