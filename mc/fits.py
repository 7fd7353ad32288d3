"""Helpers to observe fits from the outside, through a logger, and references for CP and PARAFAC2."""
import copy
import itertools

import numpy as np
from mc.util import rng, unfold_ref


class Recorder:
    """A logger (interface as in the documentation) that keeps a copy of every state it is called with."""

    def __init__(self, metrics=True):
        self.states = []
        self.metrics = metrics

    def log(self, decomposer):
        self.states.append(snapshot(decomposer, self.metrics))

    def write_to_hdf5_group(self, group):
        pass


def snapshot(decomposer, metrics=True):
    out = model(decomposer.decomposition)
    out['it'] = decomposer.current_iteration
    if metrics:
        for name in ('SSE', 'MSE', 'RMSE', 'explained_variance', 'loss'):
            out[name] = float(getattr(decomposer, name))
    return out


def model(d):
    """Copies of all arrays of a Kruskal or PARAFAC2 tensor."""
    if hasattr(d, 'projection_matrices'):
        return {'A': np.array(d.A), 'F': np.array(d.blueprint_B), 'C': np.array(d.C), 'P': [np.array(p) for p in d.projection_matrices]}
    return {'factors': [np.array(f) for f in d.factor_matrices], 'weights': np.array(d.weights)}


def arrays(m):
    if 'factors' in m:
        return [*m['factors'], m['weights']]
    return [m['A'], m['F'], m['C'], *m['P']]


def identical(m, n):
    a, b = arrays(m), arrays(n)
    return len(a) == len(b) and all(x.shape == y.shape and x.tobytes() == y.tobytes() for x, y in zip(a, b))


def distance(m, n):
    """Largest difference relative to the largest entry of each array (inf if the shapes differ)."""
    a, b = arrays(m), arrays(n)
    if len(a) != len(b) or any(x.shape != y.shape for x, y in zip(a, b)):
        return np.inf
    out = 0.0
    for x, y in zip(a, b):
        if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
            return np.inf
        scale = max(np.max(np.abs(x), initial=0), np.max(np.abs(y), initial=0))
        if scale > 0:
            out = max(out, np.max(np.abs(x - y))/scale)
    return float(out)


# ---------------------------------------------------------------- CP

def khatri_rao_ref(factors, mode):
    rank = factors[0].shape[1]
    rest = [np.asarray(f, dtype=float) for i, f in enumerate(factors) if i != mode]
    out = np.ones((1, rank))
    for f in rest:
        out = (out[:, None, :]*f[None, :, :]).reshape(-1, rank)
    return out


def cp_tensor(m):
    f = [np.asarray(x, dtype=float) for x in m['factors']]
    K = khatri_rao_ref(f, 0)
    return ((f[0]*m['weights']) @ K.T).reshape([x.shape[0] for x in f])


def cp_size(m):
    """Sum of the norms of the components."""
    return float(sum(abs(w)*np.prod([np.linalg.norm(f[:, r]) for f in m['factors']]) for r, w in enumerate(m['weights'])))


def cp_sse(X, m):
    return float(np.sum((X - cp_tensor(m))**2))


def ridge_term(ridge, factors):
    return 0.0 if ridge is None else float(sum(lam*np.sum(f**2) for lam, f in zip(ridge, factors)))


def cp_loss(X, m, ridge):
    return cp_sse(X, m) + ridge_term(ridge, m['factors'])


def low_rank(shape, rank, key, kind):
    """Data tensors of several families."""
    r = rng('data', tuple(shape), rank, key, kind)
    if kind == 'noise':
        return r.standard_normal(shape)
    if kind == 'nonneg':
        return r.random_sample(shape)
    if kind == 'integer':
        return r.randint(-2, 3, size=shape).astype(float) + (0.0 if np.prod(shape) > 4 else 1.0)
    if kind in ('exact', 'mixed', 'scaled'):
        factors = [r.standard_normal((s, rank)) for s in shape]
        X = np.zeros(shape)
        for c in range(rank):
            comp = np.array(1.0)
            for f in factors:
                comp = np.multiply.outer(comp, f[:, c])
            X += comp
        if kind == 'exact':
            return X
        X = X + 0.3*r.standard_normal(shape)
        return 1e4*X if kind == 'scaled' else X
    raise ValueError(kind)


def block_residual(X, factors, mode, constraint, lam):
    """How far factor ``mode`` is from minimising the loss with the others fixed.

    Returns (relative residual of the optimality conditions, well defined?).
    """
    U = factors[mode]
    K = khatri_rao_ref(factors, mode)
    Xm = unfold_fast(X, mode)
    cross = Xm @ K
    normK = np.linalg.norm(K)
    if constraint == 'orth':
        s = np.linalg.svd(cross, compute_uv=False)
        if s[-1] <= 1e-7*s[0] or s[0] == 0:
            return 0.0, False
        gap = np.sum(s) - np.sum(U*cross)
        ortho = np.max(np.abs(U.T @ U - np.eye(U.shape[1])))
        return max(abs(gap)/np.sum(s), ortho), True
    normA = normK + np.sqrt(lam)   # of the system with the ridge rows
    size = normA*(np.linalg.norm(Xm) + normA*np.linalg.norm(U)) + 1e-300
    grad = U @ (K.T @ K) - cross + lam*U
    if constraint is None:
        return float(np.linalg.norm(grad)/size), True
    # KKT conditions
    if np.any(U < 0):
        return np.inf, True
    cols = np.linalg.norm(K, axis=0)
    S = (K/np.where(cols > 0, cols, 1))[:, cols > 0]
    if lam == 0 and S.shape[1] and np.linalg.svd(S, compute_uv=False)[-1] < 1e-6:
        return 0.0, False
    scale = np.max(np.abs(U), initial=0)
    comp = np.max(np.abs(grad*U))/scale if scale > 0 else 0.0
    return float(max(np.max(-grad, initial=0), comp)/size), True


def unfold_fast(X, mode):
    return np.moveaxis(X, mode, 0).reshape(X.shape[mode], -1)


def explain_step(X, old, new, constraints, ridge, tol):
    """Finds an order of the modes in which every update was a block minimisation.

    Returns (order or None, residuals of the natural order, well defined?).
    """
    n = len(old)
    natural = None
    for order in itertools.permutations(range(n)):
        current = list(old)
        worst, defined = [], True
        for mode in order:
            current[mode] = new[mode]
            res, ok = block_residual(X, current, mode, constraints[mode], 0.0 if ridge is None else ridge[mode])
            defined = defined and ok
            worst.append(res)
        if natural is None:
            natural = worst
            if not defined:
                return order, worst, False
        if max(worst) <= tol:
            return order, natural, defined
    return None, natural, True


# ---------------------------------------------------------------- PARAFAC2

def pf2_slices(m):
    return [m['A'] @ (m['C'][k]*(p @ m['F'])).T for k, p in enumerate(m['P'])]


def pf2_sse(X, m):
    return float(sum(np.sum((x - y)**2) for x, y in zip(X, pf2_slices(m))))


def pf2_size(m):
    return float(sum(np.linalg.norm(m['A'][:, r])*np.linalg.norm(m['F'][:, r])*np.linalg.norm(m['C'][:, r]) for r in range(m['A'].shape[1])))


def pf2_loss(X, m, ridge):
    return pf2_sse(X, m) + ridge_term(ridge, [m['A'], m['F'], m['C']])


def pf2_data(I, J, rank, key, kind='mixed'):
    """Slices I x J_k with a PARAFAC2 structure plus noise."""
    r = rng('pf2', I, tuple(J), rank, key, kind)
    if kind == 'noise':
        return [r.standard_normal((I, j)) for j in J]
    A = r.standard_normal((I, rank))
    C = r.random_sample((len(J), rank)) + 0.3
    F = r.standard_normal((rank, rank)) + np.eye(rank)
    if kind == 'nonneg':
        A = np.abs(A)
    out = []
    for k, j in enumerate(J):
        p = np.linalg.qr(r.standard_normal((j, rank)))[0]
        out.append(A @ (C[k]*(p @ F)).T + (0.0 if kind == 'exact' else 0.2)*r.standard_normal((I, j)))
    return out


def clone(x):
    return copy.deepcopy(x)
