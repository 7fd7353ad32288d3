"""C03: least squares and ridge solves.

X minimises ||XA - B|| exactly if the gradient (XA - B)A^T vanishes, and the penalised
residual exactly if (XA - B)A^T + lambda X vanishes; both are checked for all small integer
matrices A and for larger structured (rank deficient, badly scaled) families.
"""
import itertools
import numpy as np
from tenkit import base
from mc.history import call_histories
from mc.util import LAYOUTS, with_layout, fingerprint, rng

ID = 'C03'
LEVEL = 'exploration'
RULE = ('all n x m matrices A with entries in {-1,0,1} (2x2 and smaller: {-2..2}) and n*m <= 9 (thorough: 12), up to the '
        'order of their entries, each with right hand sides: identity, a single row, more rows than unknowns, consistent '
        'and inconsistent; structured larger A (every rank deficiency by repeated, proportional, dependent or zero rows '
        'and columns, scales 1e-8..1e8, all layouts and dtypes); all sequences of two calls. Non-trivial: A is not zero.')
ASSUMPTIONS = ['optimality is accepted up to rounding: relative gradient below 1e-9 (1e-3 for single precision input)']
LAMBDAS = (0.0, 0.01, 0.5, 1.0, 4.0, 100.0)


def jobs(tier, seed):
    shapes = [(n, m) for n in range(1, 5) for m in range(1, 5) if n*m <= (12 if tier == 'thorough' else 9)]
    shapes += [(1, 9), (9, 1), (1, 6), (6, 1), (2, 4), (4, 2)]
    out = []
    for n, m in dict.fromkeys(shapes):
        first = [-2, -1, 0, 1, 2] if n*m <= 4 else [-1, 0, 1]
        heads = [[]] if n*m <= 5 else [list(h) for h in itertools.product(first, repeat=2)]
        out += [{'kind': 'ints', 'n': n, 'm': m, 'values': first, 'head': h} for h in heads]
    out += [{'kind': 'families', 'seed': seed, 'n': n, 'm': m} for n in (1, 2, 3, 4, 6) for m in (1, 2, 3, 5, 8)]
    out += [{'kind': 'history', 'n': n, 'm': m, 'seed': seed} for n, m in [(1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 5)]]
    return out


def run(job, rec):
    if job['kind'] == 'history':
        history(job, rec)
        return
    if job['kind'] == 'ints':
        n, m, head = job['n'], job['m'], job['head']
        Bs = rhs(n, m)
        for tail in itertools.product(job['values'], repeat=n*m - len(head)):
            A = np.array(list(head) + list(tail), dtype=float).reshape(n, m)
            decide(A, Bs, rec, quick=n*m > 6)
        rec.sample({'A': A})
    else:
        families(job, rec)


def rhs(n, m):
    r = rng('c03', n, m)
    return [np.eye(m), np.ones((1, m)), r.randint(-3, 4, size=(n + 2, m)).astype(float), r.randint(-3, 4, size=(1, n)).astype(float)]


def decide(A, Bs, rec, quick=False, tol=1e-9, **info):
    n, m = A.shape
    A64 = np.asarray(A, dtype=float)
    normA = np.linalg.norm(A64)
    sv = np.linalg.svd(A64, compute_uv=False)
    cut = sv[0]*max(A.shape)*(1e-12 if tol < 1e-6 else 1e-5)
    smin = min(sv[sv > cut], default=1.0)
    for j, B in enumerate(Bs):
        if B.shape[1] != m:   # consistent right hand side
            B = B @ A64
        before = fingerprint(A, B)
        X = base.rightsolve(A, B)
        case = dict(A=A, B=B, **info)
        rec.check(np.shape(X) == (B.shape[0], n), 'wrong shape', X=X, **case)
        rec.check(np.all(np.isfinite(X)), 'not finite', X=X, **case)
        X = np.asarray(X, dtype=float)
        normB = np.linalg.norm(B)
        grad = (X @ A64 - B) @ A64.T
        bound = tol*normA*(normB + normA*np.linalg.norm(X))
        rec.check(np.linalg.norm(grad) <= bound, 'residual is not the smallest achievable', X=X, gradient=grad, **case)
        rec.check(np.linalg.norm(X) <= 100*(normB + 1e-300)/smin*max(1, n), 'solution is not bounded', X=X, **case)
        rec.check(fingerprint(A, B) == before, 'input changed', **case)
        rec.evaluated((A, B) if normA > 0 else None)
        for lam in (LAMBDAS if not quick else (0.0, 0.5) if j else (1.0,)):
            X = base.add_rightsolve_ridge(base.rightsolve, lam)(A, B)
            rec.check(np.shape(X) == (B.shape[0], n) and np.all(np.isfinite(X)), 'ridge: wrong shape or not finite', X=X, lam=lam, **case)
            X = np.asarray(X, dtype=float)
            grad = (X @ A64 - B) @ A64.T + lam*X
            size = normA + np.sqrt(lam)
            bound = tol*(size*normB + size**2*np.linalg.norm(X))
            rec.check(np.linalg.norm(grad) <= bound, 'ridge: not the minimiser', X=X, lam=lam, gradient=grad, **case)
            rec.check(fingerprint(A, B) == before, 'ridge: input changed', lam=lam, **case)
            rec.evaluated((A, B, lam))


def history(job, rec):
    """All sequences of two calls of all solvers: no call depends on, or changes, another one."""
    n, m = job['n'], job['m']
    r = rng('c03h', n, m, job['seed'])
    As = [r.standard_normal((n, m)) for _ in range(2)]
    Bs = [r.standard_normal((3, m)) for _ in range(2)]
    systems = [(A, B) for A in As for B in Bs]
    families = [('rightsolve', base.rightsolve, [([A, B], B @ np.linalg.pinv(A)) for A, B in systems])]
    for lam in (0.1, 1.0):
        families.append((f'ridge {lam}', base.add_rightsolve_ridge(base.rightsolve, lam),
                         [([A, B], B @ A.T @ np.linalg.inv(A @ A.T + lam*np.eye(n))) for A, B in systems]))
    call_histories(rec, families, depth=2, tol=1e-7)
    rec.sample({'n': n, 'm': m})


def families(job, rec):
    n, m, seed = job['n'], job['m'], job['seed']
    r = rng('c03f', n, m, seed)
    G = r.standard_normal((n, m))
    out = {'generic': G, 'integer': np.round(4*G), 'nonneg': np.abs(G), 'zero': np.zeros((n, m))}
    for i in range(n):
        Z = G.copy(); Z[i] = 0
        out[f'zero row {i}'] = Z
        for k in range(n):
            if k != i:
                D = G.copy(); D[i] = D[k]
                out[f'row {i} = row {k}'] = D
                D = G.copy(); D[i] = -1/3*D[k]
                out[f'row {i} ~ row {k}'] = D
        if n > 2:
            D = G.copy(); D[i] = 0.1*D[(i + 1) % n] + 0.7*D[(i + 2) % n]
            out[f'row {i} dependent'] = D
    for j in range(m):
        Z = G.copy(); Z[:, j] = 0
        out[f'zero column {j}'] = Z
    for rank in range(1, min(n, m)):
        out[f'rank {rank}'] = r.standard_normal((n, rank)) @ r.standard_normal((rank, m))
    for s in (1e-8, 1e-4, 1e4, 1e8):
        out[f'scale {s}'] = s*G
        for i in range(n):
            Z = G.copy(); Z[i] *= s
            out[f'row {i} x {s}'] = Z
    for name, A in out.items():
        Bs = [r.standard_normal((3, m)), np.eye(m), r.standard_normal((1, m)), r.standard_normal((n + 5, m)), r.standard_normal((2, n)) if n != m else np.ones((2, m))]
        decide(A, Bs, rec, family=name)
        for layout in LAYOUTS[1:]:
            decide(with_layout(A, layout), [with_layout(B, layout) for B in Bs[:2]], rec, family=name, layout=layout)
    decide(G.astype('f4'), [Bs[0].astype('f4')], rec, tol=1e-3, family='single')
    A = np.round(4*G).astype(int)
    decide(A, [np.eye(m, dtype=int)], rec, family='int dtype')
    rec.sample({'families': list(out)})
