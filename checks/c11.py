"""C11: PARAFAC2-ALS iterations keep the PARAFAC2 structure and never raise the loss."""
import itertools
import os

import numpy as np
from tenkit.decomposition import Parafac2_ALS
from tenkit.decomposition.decompositions import Parafac2Tensor
from mc import fits
from mc.fits import Recorder, pf2_data, pf2_loss, pf2_size, model
from mc.util import rng, scratch

ID = 'C11'
LEVEL = 'model_checking'
RULE = ('all slice length patterns {R, R+1, R+3}^K (K = 1..3, also K = 5) x I x ranks 1..3 x start {random, svd, cp, given} x non-negativity of '
        'every subset of the three modes / orthonormality of the first or third mode x ridge x cp updates {1, 2, 5} (pairwise '
        'rotated in the quick tier) x data family x number types of the slices (whole numbers first, all, others) x tensor or list, through the history fit / continue / load checkpoint / '
        'continue / fit other data; every state after an iteration is checked; '
        'fits of 67 and (one size) 180 iterations and fits of large data (up to 210 slices, 130 rows, 10 components) for all constraints, some very uneven ridges')
ASSUMPTIONS = ['every slice problem has a cross-product of full rank: a (numerically) singular one ends the history (counted)',
               'slices have at least as many rows and columns as components', 'monotone up to rounding (1e-8 of the magnitude of the terms)']


def jobs(tier, seed):
    out = [{'long': True, 'I': I, 'J': J, 'R': R, 'total': total, 'seed': seed, 'tier': tier}
           for total, sizes in ((45, LONG[1:]), (120, LONG[:1]), (5, LARGE)) for I, J, R in sizes]
    for K in (1, 2, 3, 5):
        for R in (1, 2, 3):
            for extra in (0, 2):
                patterns = list(itertools.product((R, R + 1, R + 3), repeat=K)) if K <= 3 else [(R + 2, R, R + 4, R + 1, R), (R + 1,)*5]
                for i in range(0, len(patterns), 9):
                    out.append({'I': R + extra, 'R': R, 'patterns': patterns[i:i + 9], 'offset': i, 'seed': seed, 'tier': tier})
    return out


LONG = [(4, (4, 4, 4), 2), (4, (3, 5, 4), 2), (3, (3, 4, 4, 3), 3), (5, (2, 3), 1)]
LARGE = [(12, (9, 12, 10, 11)*9, 5), (70, (66, 33, 5), 4), (9, (66, 66, 66), 3), (9, (12,)*34, 3), (14, (12, 13, 14)*4, 10), (6, (130, 5, 3), 2), (4, (3,)*130, 2), (4, (3, 4, 5)*70, 2)]


CONSTRAINTS = [{}] + [{'nn': list(c)} for c in itertools.product((False, True), repeat=3) if any(c)] + [
    {'orth': [True, False, False]}, {'orth': [False, False, True]}, {'orth': [True, False, False], 'nn': [False, False, True]},
    {'orth': [False, False, True], 'nn': [True, False, False]}]
RIDGES = (None, [0.1, 0.2, 0.4], [0, 0, 1.5], [0.5, 0, 0], [0, 0.7, 0], [0, 0, 0])
# number types of the first slice and of the other slices
TYPES = ((float, float), (float, float), (np.int64, np.float64), (np.int64, np.int64), (np.float64, np.int32), (np.int32, np.float64))
INITS = ('random', 'svd', 'cp', 'precomputed')


def run(job, rec):
    if job.get('long'):
        for c, constraint in enumerate(CONSTRAINTS):
            orth = constraint.get('orth')
            if orth and orth[2] and len(job['J']) < job['R']:
                continue
            for r, ridge in enumerate(RIDGES + ([50., 1e-4, 1e-4], [1e-4, 1e-4, 20.], [1e-4, 9., 1e-4])):
                if job['total'] > 5 or (r + c) % 3 == 0:
                    history(job, tuple(job['J']), constraint, 'precomputed', ridge, 4*c + 3*r, rec, None)
                    rec.trace()
        rec.sample({'I': job['I'], 'R': job['R'], 'J': job['J']})
        return
    with scratch() as tmp:
        for p, J in enumerate(job['patterns']):
            for c, constraint in enumerate(CONSTRAINTS):
                orth = constraint.get('orth')
                if orth and orth[2] and len(J) < job['R']:
                    continue
                for i, init in enumerate(INITS):
                    if init == 'cp' and len(set(J)) > 1:
                        continue
                    n = c + i + p + job['offset']
                    for ridge in (RIDGES if job['tier'] == 'thorough' else [RIDGES[(n + n//6) % 6]]):
                        history(job, J, constraint, init, ridge, n, rec, tmp)
                        rec.trace()
        rec.sample({'I': job['I'], 'R': job['R'], 'patterns': job['patterns']})


class Undefined(Exception):
    pass


def singular(X, m):
    for k, x in enumerate(X):
        s = np.linalg.svd(((m['A']*m['C'][k]) @ m['F'].T).T @ x, compute_uv=False)
        if s[-1] <= 1e-8*s[0] or s[0] < 1e-150:
            return True
    return False


def feasible(m, constraint):
    for f, nn, orth in zip((m['A'], m['F'], m['C']), constraint.get('nn') or [False]*3, constraint.get('orth') or [False]*3):
        if nn and np.any(f < 0):
            return False
        if orth and np.max(np.abs(f.T @ f - np.eye(f.shape[1]))) > 1e-9:
            return False
    return True


def follow(rec, X, states, start, constraint, ridge, dec, excuse=None, **info):
    # excuse: probable start, only used to decide whether the first iteration is well defined
    previous = start
    norm2 = sum(np.sum(x**2) for x in X)
    for s in states:
        info['iteration'] = s['it']
        rec.check(all(np.all(np.isfinite(a)) for a in fits.arrays(s)), 'not finite', **info)
        before = previous or excuse
        if before is not None and singular(X, before) or singular(X, s):
            rec.note('histories ended by a slice problem that is not well defined')
            raise Undefined
        R = s['F'].shape[1]
        rec.check(len(s['P']) == len(X) and all(p.shape == (x.shape[1], R) for p, x in zip(s['P'], X)), 'shapes of the projections', **info)
        errors = [float(np.max(np.abs(p.T @ p - np.eye(R)))) for p in s['P']]
        rec.check(max(errors) <= 1e-8, 'projection matrices do not have orthonormal columns', errors=errors, A=s['A'], C=s['C'], F=s['F'], **info)
        Bs = [p @ s['F'] for p in s['P']]
        gram = s['F'].T @ s['F']
        rec.check(all(np.max(np.abs(B.T @ B - gram)) <= 1e-8*(np.linalg.norm(gram) + 1e-300) for B in Bs), 'cross-products differ between the slices', **info)
        for name, f, nn, orth in zip('AFC', (s['A'], s['F'], s['C']), constraint.get('nn') or [False]*3, constraint.get('orth') or [False]*3):
            if nn:
                rec.check(np.all(f >= 0), f'{name} has negative entries', factor=f, **info)
            if orth:
                K = np.einsum
                rec.check(np.max(np.abs(f.T @ f - np.eye(R))) <= 1e-8 or degenerate(X, s, name), f'{name} does not have orthonormal columns', factor=f, **info)
        if previous is not None and feasible(previous, constraint):
            old, new = pf2_loss(X, previous, ridge), pf2_loss(X, s, ridge)
            bound = 1e-8*(norm2 + 1e-3*pf2_size(s)**2 + 1e-3*pf2_size(previous)**2 + fits.ridge_term(ridge, [s['A'], s['F'], s['C']]))
            rec.check(new <= old + bound, 'the loss increased', before=old, after=new, **info)
        rec.transition()
        rec.state(fits.arrays(s))
        previous = s
    P = dec.decomposition.projection_matrices
    rec.check(not any(np.shares_memory(P[i], P[j]) for i in range(len(P)) for j in range(i)), 'slices share a projection matrix', **info)
    return previous


def degenerate(X, s, name):
    """The cross-product that defines an orthonormal update is singular."""
    Y = np.stack([x @ p for x, p in zip(X, s['P'])], axis=2)
    mode = 0 if name == 'A' else 2
    cross = fits.unfold_fast(Y, mode) @ fits.khatri_rao_ref([s['A'], s['F'], s['C']], mode)
    sv = np.linalg.svd(cross, compute_uv=False)
    return sv[-1] <= 1e-7*sv[0]


def history(job, J, constraint, init, ridge, n, rec, tmp):
    I, R, seed = job['I'], job['R'], job['seed']
    kind = ('mixed', 'nonneg', 'noise', 'exact')[n % 4]
    X = pf2_data(I, J, R, (11, seed), kind)
    Y = pf2_data(I + 1, [j + 1 for j in J] + [R], R, (11, seed), 'mixed') if init != 'cp' else pf2_data(I + 1, [J[0] + 1]*(len(J) + 1), R, (11, seed), 'mixed')
    as_tensor = len(set(J)) == 1 and n % 2 == 0 or init == 'cp'
    types = TYPES[n//2 % len(TYPES)]
    whole = [np.issubdtype(types[min(k, 1)], np.integer) for k in range(max(len(X), len(Y)))]
    if any(whole):
        X, Y = ([np.round(4*z) if w else 4*z for z, w in zip(Z, whole)] for Z in (X, Y))

    def give(Z):
        if as_tensor and len({z.shape for z in Z}) == 1:
            return np.stack(Z, axis=2).astype(types[0] if all(whole) else float)
        return [z.astype(types[min(k, 1)]) for k, z in enumerate(Z)]
    info = dict(I=I, J=J, rank=R, options=constraint, init=init, penalties=ridge, data=kind, types=[t.__name__ for t in types])
    np.random.seed(rng(11, seed, I, tuple(J)).randint(2**31))
    log = Recorder(metrics=False)
    path = os.path.join(tmp, 'c.h5') if tmp else None
    if path and os.path.exists(path):
        os.remove(path)
    dec = Parafac2_ALS(R, convergence_tol=-1, init=init, loggers=[log], print_frequency=-1, cp_updates_per_it=(5, 1, 2)[n % 3],
                       non_negativity_constraints=constraint.get('nn'), orthonormality_constraints=constraint.get('orth'), ridge_penalties=ridge,
                       checkpoint_path=path, checkpoint_frequency=1)

    def fit(data, its, what):
        log.states.clear()
        start = excuse = None
        if init == 'precomputed':
            r = rng(11, 'start', seed, len(data), I)
            given = Parafac2Tensor(np.abs(r.standard_normal((data[0].shape[0], R))), np.eye(R) + 0.1*r.random_sample((R, R)),
                                   0.2 + r.random_sample((len(data), R)), [np.linalg.qr(r.standard_normal((x.shape[1], R)))[0] for x in data])
            if constraint.get('orth'):
                for f, orth in zip((given.A, given.blueprint_B, given.C), constraint['orth']):
                    if orth:
                        f[...] = np.linalg.qr(f)[0]
            start = model(given)
            dec.fit(give(data), max_its=its, initial_decomposition=given)
        elif n % 2:
            dec.fit(give(data), max_its=0)
            start = model(dec.decomposition)
            dec.continue_fit(max_its=its)
        else:
            state = np.random.get_state()
            twin = Parafac2_ALS(R, convergence_tol=-1, init=init, print_frequency=-1, non_negativity_constraints=constraint.get('nn'),
                                orthonormality_constraints=constraint.get('orth'))
            twin.fit(give(data), max_its=0)
            excuse = model(twin.decomposition)
            np.random.set_state(state)
            dec.fit(give(data), max_its=its)
        rec.check(len(log.states) == its, 'number of iterations', got=len(log.states), expected=its, **info)
        follow(rec, data, log.states, start, constraint, ridge, dec, excuse, step=what, **info)

    def further(data, its, what):
        log.states.clear()
        start = model(dec.decomposition)
        dec.continue_fit(max_its=dec.current_iteration + its)
        follow(rec, data, log.states, start, constraint, ridge, dec, step=what, **info)

    try:
        if job.get('long'):
            fit(X, job['total'], 'long fit')
            further(X, job['total']//2, 'long fit, continued')
            return
        fit(X, 3, 'fit')
        further(X, 2, 'continue')
        dec.load_checkpoint(path, load_it=1)
        further(X, 2, 'continue from checkpoint')
        dec.checkpoint_path = None
        fit(Y, 2, 'fit other data')
        further(Y, 1, 'continue other data')
    except Undefined:
        pass
