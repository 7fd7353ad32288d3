"""C22: coupled matrix-tensor fits descend and report the coupled model."""
import itertools

import numpy as np
from tenkit.decomposition import KruskalTensor
from tenkit.decomposition.cmtf import CMTF_ALS
from mc.fits import low_rank, ridge_term
from mc.util import kruskal_ref, rng, compositions

ID = 'C22'
LEVEL = 'model_checking'
RULE = ('all non-empty sets of coupled modes in all orders for tensors of order 2, 3 and 4 x {no, all, each single, alternate, coupled only} non-negative modes x {no, equal, varied} ridge penalties x '
        '{no, one orthonormal mode} x {random, SVD, precomputed with and without weights} starts x 5 data families x all segmentations of 4 (thorough 6) iterations by continuing x {fit, fit_transform}; every '
        'logged state and every returned model is compared with a reference; fits of 80 to 220 iterations and fits of large data (up to 3000 entries, 130 rows, 10 components)')
ASSUMPTIONS = ['one matrix per mode', 'no component vanishes but for a tiny rest (histories end there)', 'with ridge penalties the loss is compared within a segment only (the components are normalised after each)']

SHAPES = [(3, 4), (3, 4, 2), (4, 3, 3), (2, 3, 2, 3)]


LONG = [((3, 4), 2, [(0,), (1, 0)]), ((3, 4, 2), 2, [(0,), (2, 0), (1, 2, 0)]), ((4, 3, 3), 3, [(1,), (0, 2)]), ((2, 3, 2, 3), 2, [(3,), (2, 1)])]
LARGE = [((20, 15, 10), 6, [(0,), (2, 1, 0)]), ((70, 4, 3), 3, [(0, 1), (2,)]), ((2, 3, 130), 3, [(2,), (0, 2)]), ((12, 11, 12), 10, [(1,), (0, 1, 2)]),
         ((40, 33), 8, [(0,), (1, 0)])]


def couplings(n):
    for k in range(1, n + 1):
        yield from itertools.permutations(range(n), k)


def jobs(tier, seed):
    out = [{'long': True, 'shape': shape, 'modes': modes, 'rank': rank, 'seed': seed} for shape, rank, sets in LONG + LARGE for modes in sets]
    for shape in SHAPES:
        n = len(shape)
        for modes in couplings(n):
            if tier == 'quick' and n == 4 and (len(modes) == 3 or len(modes) == 4) and hash_of(modes) % 4:
                continue
            out.append({'shape': shape, 'modes': modes, 'seed': seed, 'n': 4 if tier == 'quick' else 6, 'thorough': tier == 'thorough'})
    return out


def hash_of(modes):
    return sum((i + 1)*m for i, m in enumerate(modes))


class Recorder:
    def __init__(self):
        self.states = []

    def log(self, dec):
        self.states.append(state(dec))

    def write_to_hdf5_group(self, group):
        pass


def state(dec):
    return {'it': dec.current_iteration, 'factors': [np.array(f) for f in dec.factor_matrices], 'weights': np.array(dec.weights),
            'V': [np.array(v) for v in dec.uncoupled_factor_matrices], 'X': np.array(dec.reconstructed_X), 'Y': [np.array(y) for y in dec.reconstructed_coupled_matrices],
            **{name: float(getattr(dec, name)) for name in ('SSE', 'MSE', 'RMSE', 'loss', 'coupled_factor_matrices_SSE')}}


def judge(rec, s, X, Ys, modes, nn, ridge, **info):
    """The reported errors against their definitions, and the constraints."""
    hat = kruskal_ref(s['factors'], s['weights'])
    size = sum(abs(w)*np.prod([np.linalg.norm(f[:, r]) for f in s['factors']]) for r, w in enumerate(s['weights']))
    hats = [s['factors'][m] @ v.T for m, v in zip(modes, s['V'])]
    sizes = [sum(np.linalg.norm(s['factors'][m][:, r])*np.linalg.norm(v[:, r]) for r in range(v.shape[1])) for m, v in zip(modes, s['V'])]
    rec.check(np.max(np.abs(s['X'] - hat)) <= 1e-10*(size + 1e-300), 'the reconstructed tensor is not that of the model', **info)
    for y, z, c in zip(s['Y'], hats, sizes):
        rec.check(y.shape == z.shape and np.max(np.abs(y - z)) <= 1e-10*(c + 1e-300), 'a reconstructed matrix is not that of the model', **info)
    matrices = sum(np.sum((Y - y)**2) for Y, y in zip(Ys, hats))
    sse = np.sum((X - hat)**2) + matrices
    scale = (np.linalg.norm(X) + size)**2 + sum((np.linalg.norm(Y) + c)**2 for Y, c in zip(Ys, sizes))
    count = X.size + sum(Y.size for Y in Ys)
    loss = sse + ridge_term(ridge, s['factors'])
    tol = 1e-10*scale
    rec.check(abs(s['SSE'] - sse) <= tol, 'SSE', got=s['SSE'], expected=sse, **info)
    rec.check(abs(s['coupled_factor_matrices_SSE'] - matrices) <= tol, 'SSE of the matrices', got=s['coupled_factor_matrices_SSE'], expected=matrices, **info)
    rec.check(abs(s['MSE'] - sse/count) <= tol/count, 'MSE', got=s['MSE'], expected=sse/count, **info)
    rec.check(abs(s['RMSE']**2 - sse/count) <= tol/count and s['RMSE'] >= 0, 'RMSE', got=s['RMSE'], expected=np.sqrt(sse/count), **info)
    rec.check(abs(s['loss'] - loss) <= tol + 1e-10*loss, 'loss', got=s['loss'], expected=loss, **info)
    for m, f in enumerate(s['factors']):
        rec.check(np.all(np.isfinite(f)), 'a factor is not finite', mode=m, **info)
        if nn and nn[m]:
            rec.check(np.all(f >= 0), 'a non-negative mode has negative entries', mode=m, factor=f, **info)
    for m, v in zip(modes, s['V']):
        if nn and nn[m]:
            rec.check(np.all(v >= 0), 'the matrix factor of a non-negative mode has negative entries', mode=m, factor=v, **info)
    return loss, tol


def make_data(shape, modes, kind, key, rank=2):
    r = rng('cmtf', shape, modes, kind, key)
    factors = [r.standard_normal((s, rank)) for s in shape]
    columns = [3 + i for i in range(len(modes))]
    if kind == 'nonneg':
        factors = [np.abs(f) for f in factors]
    X = kruskal_ref(factors)
    Ys = [factors[m] @ (np.abs if kind == 'nonneg' else lambda v: v)(r.standard_normal((c, rank))).T for m, c in zip(modes, columns)]
    if kind == 'noise':
        return r.standard_normal(shape), [r.standard_normal(Y.shape) for Y in Ys]
    if kind == 'scaled':
        return X + 0.1*r.standard_normal(shape), [(100.0 if i % 2 else 0.01)*(Y + 0.1*r.standard_normal(Y.shape)) for i, Y in enumerate(Ys)]
    if kind == 'exact':
        return X, Ys
    if kind == 'counts':
        return np.round(3*X + r.standard_normal(shape)).astype(np.int64), [np.round(3*Y + r.standard_normal(Y.shape)).astype((np.int32, np.int64)[i % 2]) for i, Y in enumerate(Ys)]
    if kind == 'counted matrices':
        return X + 0.2*r.standard_normal(shape), [np.round(3*Y + r.standard_normal(Y.shape)).astype(np.int64) if i % 2 == 0 else Y for i, Y in enumerate(Ys)]
    return X + 0.2*np.abs(r.standard_normal(shape)), [Y + 0.2*np.abs(r.standard_normal(Y.shape)) for Y in Ys]


KINDS = ('mixed', 'nonneg', 'noise', 'scaled', 'exact', 'counts', 'counted matrices')


def long(job, rec):
    """Many iterations, or large data and many components."""
    shape, modes, n, rank = tuple(job['shape']), tuple(job['modes']), len(job['shape']), job['rank']
    composition = (60, 20) if np.prod(shape) < 200 else (4, 3)
    if composition == (60, 20) and rank == 2 and n == 3:
        composition = (130, 90)
    nns = [None, [True]*n, [m in modes for m in range(n)]] + [[m == k for m in range(n)] for k in range(n)]
    for i, nn in enumerate(nns):
        for j, ridge in enumerate((None, [0.1*(3**m) for m in range(n)], [20.0] + [1e-3]*(n - 1))):
            kind = KINDS[(i + j) % len(KINDS)]
            history(job, rec, shape, modes, nn, ridge, None, ('precomputed', 'weighted', 'random')[(i + 2*j) % 3], kind, composition, 3*i + j, rank)
    rec.sample({'shape': shape, 'modes': modes})


def run(job, rec):
    if job.get('long'):
        return long(job, rec)
    shape, modes, n = tuple(job['shape']), tuple(job['modes']), len(job['shape'])
    nns = [None, [True]*n, [m in modes for m in range(n)], [m % 2 == 0 for m in range(n)]] + [[m == k for m in range(n)] for k in range(n)]
    ridges = [None, [0.2]*n, [0.1*(3**m) for m in range(n)]]
    segments = list(compositions(job['n']))
    number = hash_of(modes)
    for nn in nns:
        for ridge in ridges:
            for orth in [None] + [[m == k for m in range(n)] for k in range(n)]:
                if orth and (shape[orth.index(True)] < 2 or nn and any(a and b for a, b in zip(nn, orth))):
                    continue
                for init in ('random', 'svd', 'precomputed', 'weighted'):
                    for kind in KINDS:
                        number += 1
                        if orth and number % 7 or number % 2 and not job['thorough']:
                            continue
                        history(job, rec, shape, modes, nn, ridge, orth, init, kind, segments[number % len(segments)], number)
    # all segmentations for the plain model
    for composition in segments:
        for kind in KINDS:
            for ridge in (None, [0.3]*n):
                for init in ('random', 'weighted'):
                    history(job, rec, shape, modes, None, ridge, None, init, kind, composition, number)
    rec.sample({'shape': shape, 'modes': modes})


def history(job, rec, shape, modes, nn, ridge, orth, init, kind, composition, number, rank=2):
    X, Ys = make_data(shape, modes, kind, job['seed'], rank)
    info = dict(shape=shape, coupled=modes, nonneg=nn, penalties=ridge, orth=orth, init=init, kind=kind, segments=composition)
    log = Recorder()
    r = rng('cmtf start', shape, job['seed'], number)
    start = None
    if init in ('precomputed', 'weighted'):
        factors = [r.random_sample((s, rank)) + 0.1 for s in shape]
        start = KruskalTensor(factors, np.array([3.0, 0.5] + [1.5]*rank)[:rank] if init == 'weighted' else None)
        before = kruskal_ref(factors, start.weights)
    np.random.seed(number % 1000)
    dec = CMTF_ALS(rank, convergence_tol=-1, rel_loss_tol=-1, init='precomputed' if start else init, loggers=[log], non_negativity_constraints=nn, ridge_penalties=ridge, orthonormality_constraints=orth)
    options = dict(initial_decomposition=start) if start else {}
    # the starting point: a fit without iterations
    np.random.seed(number % 1000)
    dec.fit(X, Ys, list(modes), max_its=0, **options)
    s = state(dec)
    rec.check(not log.states and s['it'] == 0, 'a fit without iterations runs iterations', **info)
    previous, _ = judge(rec, s, X, Ys, modes, nn if init != 'svd' else None, ridge, moment='start', **info)
    if start and not orth:
        rec.check(np.max(np.abs(s['X'] - before)) <= 1e-10*np.max(np.abs(before)), 'the model does not start from the given components', **info)
    done = 0
    for k, count in enumerate(composition):
        done += count
        if k == 0:
            # again, with the same random numbers (the given start was normalised by the first fit)
            if start:
                start = KruskalTensor([f.copy() for f in start.factor_matrices], start.weights.copy())
                options = dict(initial_decomposition=start)
            np.random.seed(number % 1000)
            if number % 2:
                returned = dec.fit_transform(X, Ys, list(modes), max_its=done, **options)
                if not any(tiny(s) for s in log.states):
                    check_returned(rec, returned, dec, X, Ys, modes, rank, **info)
            else:
                dec.fit(X, Ys, list(modes), max_its=done, **options)
        else:
            dec.continue_fit(max_its=done)
        rec.check([s['it'] for s in log.states] == list(range(done)), 'iteration numbers', got=[s['it'] for s in log.states], **info)
        for i, s in enumerate(log.states[done - count:]):
            loss, tol = judge(rec, s, X, Ys, modes, nn, ridge, iteration=s['it'], **info)
            # the loss of a start that is only compared if it fulfils the constraints, and if normalising did not change it
            comparable = i > 0 or ridge is None and (k > 0 or orth is None and not (nn and init == 'svd'))
            rec.check(not comparable or loss <= previous + 10*tol, 'the loss increased', iteration=s['it'], before=previous, after=loss, **info)
            previous = loss
            rec.state((info, s['it']))
            rec.transition()
        if any(tiny(s) for s in log.states):
            # (with ridge penalties on the shared factor alone, a component can move into the matrix factor altogether)
            rec.note('histories ended by a vanishing component')
            return
        s = state(dec)
        after, tol = judge(rec, s, X, Ys, modes, nn, ridge, moment='end of segment', **info)
        last = log.states[-1]
        rec.check(np.max(np.abs(s['X'] - last['X'])) <= 1e-9*(1 + np.max(np.abs(last['X'])) + 1e5*np.sqrt(tol)) and abs(s['SSE'] - last['SSE']) <= 10*tol,
                  'the model at the end is not that of the last iteration', **info)
        for a, b in zip(s['Y'], last['Y']):
            rec.check(np.max(np.abs(a - b)) <= 1e-9*(1 + np.max(np.abs(b)) + 1e5*np.sqrt(tol)), 'the matrices at the end are not those of the last iteration', **info)
        previous = after
    rec.trace()


def tiny(s):
    norms = np.array([np.linalg.norm(f, axis=0) for f in s['factors'] + s['V']])
    return np.any((norms > 0) & (norms < 1e-3)) or np.any(norms > 1e4)


def check_returned(rec, returned, dec, X, Ys, modes, rank, **info):
    tensor, pairs = returned
    rec.check(isinstance(tensor, KruskalTensor) and len(pairs) == len(Ys), 'what fit_transform returns', **info)
    hat = kruskal_ref([np.asarray(f) for f in tensor.factor_matrices], tensor.weights)
    s = state(dec)
    size = np.max(np.abs(hat)) + 1e-300
    rec.check(np.max(np.abs(hat - s['X'])) <= 1e-8*size, 'the returned tensor is not the model', **info)
    total = np.sum((X - hat)**2)
    for (A, V), m, Y, y in zip(pairs, modes, Ys, s['Y']):
        rec.check(np.array_equal(A, tensor.factor_matrices[m]), 'the returned matrices do not share the factor of the tensor', mode=m, **info)
        rec.check(A.shape == (Y.shape[0], rank) and V.shape == (Y.shape[1], rank), 'shapes of the returned matrices', mode=m, **info)
        rec.check(np.max(np.abs(A @ V.T - y)) <= 1e-9*(1 + np.max(np.abs(y))), 'the returned matrices do not reproduce the reconstruction', mode=m, **info)
        total += np.sum((Y - A @ V.T)**2)
    rec.check(abs(total - s['SSE']) <= 1e-8*(total + np.sum(X**2)), 'the returned model does not have the reported error', got=s['SSE'], expected=total, **info)
