"""C09: fitted CP factors satisfy the requested constraints, and only those."""
import itertools
import os

import numpy as np
from tenkit.decomposition import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor
from mc.fits import Recorder, block_residual, low_rank, model
from mc.util import rng, scratch, raises, kruskal_ref

ID = 'C09'
LEVEL = 'model_checking'
RULE = ('all assignments of {free, non-negative, orthonormal, both} to the modes (orders 2-4; order 5: at most two constrained modes), given as '
        'list, tuple, array or None, x ridge {none, all, single} x start {random, svd, given (infeasible)} x data families, through the '
        'history fit / continue / fit other shape / load checkpoint / continue / refit; every state after an iteration is '
        'checked; fits of 110 (three modes: 320) iterations and fits of large tensors (up to 3000 entries, 130 rows, 10 components, order 6). Data whose free factors have negative entries for every assignment with a free mode.')
ASSUMPTIONS = ['orthonormal columns are checked as long as the cross-product that defines the update is not (numerically) singular']


def jobs(tier, seed):
    shapes = [(2, 3), (3, 3), (2, 3, 2), (3, 2, 4), (1, 3, 2), (2, 2, 3, 2), (2, 2, 1, 3, 2)]
    if tier == 'thorough':
        shapes += [(1, 1), (4, 4, 4), (5, 1, 3), (3, 2, 3, 2), (2, 2, 2, 2, 2)]
    out = []
    for shape in shapes:
        for rank in (1, 2, 3):
            every = list(itertools.product((None, 'nn', 'orth'), repeat=len(shape)))
            if len(shape) == 5:
                every = [c for c in every if sum(x is not None for x in c) <= 2]
            every = [c for c in every if all(x != 'orth' or s >= rank for x, s in zip(c, shape))]
            for i in range(0, len(every), 14):
                out.append({'kind': 'history', 'shape': shape, 'rank': rank, 'constraints': every[i:i + 14], 'seed': seed, 'tier': tier})
    out += [{'kind': 'both', 'order': n} for n in (2, 3, 4)]
    out += [{'kind': 'free', 'order': n, 'seed': seed} for n in (2, 3, 4, 5)]
    long = [{'kind': 'long', 'shape': shape, 'rank': rank, 'constraints': c, 'seed': seed}
            for shape, rank in LARGE + LONG for c in some_constraints(shape, rank)]
    return long + out


LONG = [((4, 3, 5), 2), ((3, 4, 4), 3), ((3, 2, 2, 3), 2), ((5, 4), 2)]
LARGE = [((20, 15, 10), 6), ((70, 4, 3), 3), ((2, 3, 130), 2), ((12, 11, 12), 10), ((40, 33), 8), ((2, 2, 2, 2, 2, 2), 2)]


def some_constraints(shape, rank):
    n = len(shape)
    out = [('nn',)*n]
    for i, s in enumerate(shape):
        out.append(tuple('nn' if i == j else None for j in range(n)))
        if s >= rank:
            out.append(tuple('orth' if i == j else 'nn' for j in range(n)))
            out.append(tuple('orth' if i == j else None for j in range(n)))
    return out


def long(job, rec):
    """Many iterations, or large data and many components."""
    shape, rank, constraints, seed = tuple(job['shape']), job['rank'], tuple(job['constraints']), job['seed']
    n = len(shape)
    total, more = (50, 110) if np.prod(shape) < 200 else (4, 6)
    if total == 50 and n == 3:
        total, more = 160, 320
    for ridge in (None, [0.2 + 0.3*i for i in range(n)], [30.0 if i == 0 else 1e-4 for i in range(n)]):
        for kind in ('mixed', 'noise'):
            X = low_rank(shape, rank, (seed, 'long'), kind)
            info = dict(shape=shape, rank=rank, modes=constraints, penalties=ridge, data=kind)
            r = rng('long start', shape, rank, seed)
            start = KruskalTensor([r.standard_normal((s, rank)) for s in shape])
            log = Recorder(metrics=False)
            dec = make(rank, constraints, ridge, 'precomputed', loggers=[log])
            before = model(start)
            dec.fit(X, max_its=total, initial_decomposition=start)
            rec.check(len(log.states) == total, 'number of iterations', got=len(log.states), expected=total, **info)
            dec.continue_fit(max_its=more)
            rec.check(len(log.states) == more, 'number of iterations', got=len(log.states), expected=more, **info)
            check_states(rec, X, log.states, constraints, ridge, previous=before, step='long fit', **info)
            rec.trace()
    rec.sample({'shape': shape, 'rank': rank, 'constraints': constraints})


def ridges(n):
    return [None, [0.2 + 0.3*i for i in range(n)], [1.5 if i == n//2 else 0 for i in range(n)]]


def options(flags, how):
    if how == 'list':
        return list(flags)
    if how == 'tuple':
        return tuple(flags)
    if how == 'array':
        return np.array(flags)
    return [int(f) for f in flags]


def make(rank, constraints, ridge, init, how='list', **kwargs):
    nn = [c in ('nn', 'both') for c in constraints]
    orth = [c in ('orth', 'both') for c in constraints]
    always = how != 'list'
    return CP_ALS(rank, convergence_tol=-1, rel_loss_tol=-1, init=init,
                  non_negativity_constraints=options(nn, how) if any(nn) or always else None,
                  orthonormality_constraints=options(orth, how) if any(orth) or always else None, ridge_penalties=ridge, **kwargs)


def check_states(rec, X, states, constraints, ridge, previous=None, **info):
    for s in states:
        fms = s['factors']
        for mode, c in enumerate(constraints):
            rec.check(np.all(np.isfinite(fms[mode])), f'mode {mode} is not finite', iteration=s['it'], factors=fms, **info)
            if c == 'nn':
                rec.check(np.all(fms[mode] >= 0), f'mode {mode} has negative entries', iteration=s['it'], factor=fms[mode], X=X, **info)
            elif c == 'orth':
                error = np.max(np.abs(fms[mode].T @ fms[mode] - np.eye(fms[mode].shape[1])))
                if error > 1e-9:
                    # Only a degenerate cross-product excuses this.  The factors at the time of the update are the
                    # new ones for some modes and the previous ones for the others.
                    singular = any(
                        not block_residual(X, [f if new else p for f, p, new in zip(fms, previous['factors'], choice)], mode, 'orth', 0)[1]
                        for choice in itertools.product((True, False), repeat=X.ndim))
                    if singular:
                        rec.note('orthonormal updates that are not well defined')
                        return False
                rec.check(error <= 1e-9, f'mode {mode} does not have orthonormal columns', iteration=s['it'], factor=fms[mode], X=X, **info)
        rec.state(fms)
        rec.transition()
        previous = s
    return True


def run(job, rec):
    {'history': histories, 'both': both, 'free': free, 'long': long}[job['kind']](job, rec)


def histories(job, rec):
    n = len(job['shape'])
    kinds = ('mixed', 'noise', 'nonneg', 'integer')
    hows = ('list', 'tuple', 'array', 'ints')
    with scratch() as tmp:
        for c, constraints in enumerate(job['constraints']):
            for i, ridge in enumerate(ridges(n)):
                for j, init in enumerate(('precomputed', 'random', 'svd')):
                    if init == 'svd' and job['rank'] > min(job['shape']):
                        continue
                    which = kinds if job['tier'] == 'thorough' else [kinds[(c + i + 2*j) % 4]]
                    for kind in which:
                        history(job, constraints, ridge, init, kind, hows[(c + i + j) % 4], rec, tmp)
                        rec.trace()
    rec.sample({'shape': job['shape'], 'rank': job['rank'], 'constraints': job['constraints']})


def history(job, constraints, ridge, init, kind, how, rec, tmp):
    shape, rank, seed = job['shape'], job['rank'], job['seed']
    X = low_rank(shape, rank, (9, seed), kind)
    if kind == 'integer' and how != 'list':
        X = X.astype(np.int64 if rank % 2 else np.int32)
    Y = low_rank([s + 1 for s in shape], rank, (9, seed), 'mixed')
    info = dict(shape=shape, rank=rank, modes=constraints, penalties=ridge, init=init, data=kind, options=how)
    np.random.seed(rng(9, seed, kind, tuple(shape)).randint(2**31))
    log = Recorder(metrics=False)
    path = os.path.join(tmp, 'c.h5')
    if os.path.exists(path):
        os.remove(path)
    dec = make(rank, constraints, ridge, init, how, loggers=[log], checkpoint_path=path, checkpoint_frequency=2)

    def start(data):
        """Does not satisfy the constraints; only the orthonormal modes are well defined."""
        r = rng('start', tuple(data.shape), rank, seed)
        return KruskalTensor([r.standard_normal((s, rank)) for s in data.shape]) if init == 'precomputed' else None

    def step(data, what, fn, *args, **kwargs):
        log.states.clear()
        initial = kwargs.get('initial_decomposition')
        if fn == dec.fit and initial is None:   # first look at the starting point
            budget = kwargs['max_its']
            dec.fit(*args, **dict(kwargs, max_its=0))
            fn, args, kwargs = dec.continue_fit, (), {'max_its': budget}
        before = model(dec.decomposition if initial is None else initial)
        fn(*args, **kwargs)
        return check_states(rec, data, log.states, constraints, ridge, previous=before, step=what, **info)

    if not step(X, 'fit', dec.fit, X, max_its=3, initial_decomposition=start(X)):
        return
    if not step(X, 'continue', dec.continue_fit, max_its=5):
        return
    dec.load_checkpoint(path, load_it=1)
    if not step(X, 'continue from checkpoint', dec.continue_fit, max_its=4):
        return
    dec.decomposition.normalize_components()
    if not step(X, 'continue after normalising', dec.continue_fit, max_its=5):
        return
    dec.checkpoint_path = None
    if not step(Y, 'fit other shape', dec.fit, Y, max_its=2, initial_decomposition=start(Y)):
        return
    step(X, 'refit', dec.fit, X, max_its=2, initial_decomposition=start(X))


def both(job, rec):
    """Non-negative and orthonormal at once is refused."""
    n = job['order']
    X = low_rank([3]*n, 2, 'both', 'mixed')
    for constraints in itertools.product((None, 'nn', 'orth', 'both'), repeat=n):
        for ridge in ridges(n):
            for how in ('list', 'array'):
                for init in ('random', 'svd', 'precomputed'):
                    start = KruskalTensor([rng('both', i).standard_normal((3, 2)) for i in range(n)]) if init == 'precomputed' else None
                    np.random.seed(3)

                    def attempt():
                        dec = make(2, constraints, ridge, init, how)
                        dec.fit(X, max_its=2, initial_decomposition=start)
                    e = raises(attempt)
                    asked = 'both' in constraints
                    rec.check((e is not None) == asked, 'non-negative and orthonormal on one mode is accepted' if asked else f'refused: {e!r}',
                              modes=constraints, ridge=ridge, init=init, options=how)
                    rec.check(not asked or isinstance(e, ValueError), f'refused with {e!r}', modes=constraints)
                    rec.state((constraints, ridge, how, init))
                    rec.transition()
    rec.sample({'order': n})


def free(job, rec):
    """Free modes go where the data is: negative entries and any column length."""
    n = job['order']
    for constraints in itertools.product((None, 'nn', 'orth'), repeat=n):
        if all(constraints):
            continue
        r = rng('free', constraints, job['seed'])
        factors = []
        for c in constraints:
            f = np.array([2.0, -1.5, 0.7, -3.0][:3]) + 0.1*r.standard_normal(3)
            if c == 'nn':
                f = np.abs(f)
            elif c == 'orth':
                f = f/np.linalg.norm(f)
            factors.append(f[:, None])
        X = kruskal_ref(factors)
        for ridge in (None, [1e-9]*n):
            start = KruskalTensor([f + 0.05*np.abs(f) for f in factors])
            log = Recorder()
            dec = make(1, constraints, ridge, 'precomputed', loggers=[log])
            dec.fit(X, max_its=3, initial_decomposition=start)
            for s in log.states:
                rec.check(s['it'] == 0 or s['SSE'] <= 1e-8*np.sum(X**2), 'the constraints of some modes restrict others', modes=constraints, SSE=s['SSE'], X=X)
                for mode, c in enumerate(constraints):
                    if c != 'nn':
                        rec.check(np.any(s['factors'][mode] < 0) and np.any(s['factors'][mode] > 0), f'signs of mode {mode} are restricted', modes=constraints)
                rec.state(s['factors'])
                rec.transition()
            rec.trace()
    rec.sample({'order': n})
