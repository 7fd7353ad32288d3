"""C04: non-negative and orthogonal solves are feasible and optimal.

Non-negative: the problem is convex, so the KKT conditions (X >= 0, gradient >= 0,
complementarity) are equivalent to optimality.  Orthogonal: X is optimal exactly if
trace(X^T B A^T) equals the nuclear norm of B A^T.
"""
import itertools
import numpy as np
from tenkit import base
from mc.history import call_histories
from mc.util import LAYOUTS, with_layout, fingerprint, rng

ID = 'C04'
LEVEL = 'exploration'
RULE = ('non-negative: all n x m matrices A with entries {-1,0,1} and n*m <= 6 (thorough 9) x all right hand side rows '
        'with entries {-1,0,2}, also as one-dimensional vectors, with and without ridge; orthogonal: all pairs of integer '
        'matrices A (n x m), B (p x m), n*m and p*m <= 6 whose cross-product has full rank; structured larger systems of '
        'all shapes, layouts and scales, also of the rows of one right hand side; all sequences of two calls. Non-trivial: A is not zero.')
ASSUMPTIONS = ['orthogonal solves: cross-product of full rank (decided exactly for integers)', 'optimality up to rounding (relative 1e-9)']


def jobs(tier, seed):
    cap = 9 if tier == 'thorough' else 6
    out = []
    for n, m in itertools.product(range(1, 4), repeat=2):
        if n*m <= cap:
            heads = [[]] if n*m < 6 else [list(h) for h in itertools.product((-1, 0, 1), repeat=2)]
            out += [{'kind': 'nnls', 'n': n, 'm': m, 'head': h} for h in heads]
    shapes = [(1, 1, 1), (1, 1, 2), (2, 1, 2), (1, 2, 1), (1, 2, 2), (2, 2, 2), (2, 3, 2), (2, 2, 3), (1, 3, 2), (1, 2, 3), (1, 3, 1)]
    if tier == 'thorough':
        shapes += [(2, 3, 3), (1, 3, 3), (1, 4, 2)]
    for n, m, p in shapes:   # A: n x m, B: p x m, X: p x n with p >= n
        heads = [[]] if n*m < 4 else [list(h) for h in itertools.product((-1, 0, 1), repeat=2)]
        out += [{'kind': 'orth', 'n': n, 'm': m, 'p': p, 'head': h} for h in heads]
    out.append({'kind': 'dependent'})
    out += [{'kind': 'families', 'n': n, 'm': m, 'seed': seed} for n in (1, 2, 3, 5) for m in (1, 2, 4, 9)]
    out += [{'kind': 'history', 'n': n, 'm': m, 'seed': seed} for n, m in [(1, 1), (1, 3), (2, 2), (2, 3), (3, 3)]]
    return out


def run(job, rec):
    {'nnls': nnls, 'orth': orth, 'families': families, 'dependent': dependent, 'history': history}[job['kind']](job, rec)


def check_nn(A, B, rec, lam=None, tol=1e-9, **info):
    before = fingerprint(A, B)
    solve = base.non_negative_rightsolve if lam is None else base.add_rightsolve_ridge(base.non_negative_rightsolve, lam)
    X = solve(A, B)
    case = dict(A=A, B=B, ridge=lam, X=X, **info)
    A64, B2 = np.asarray(A, float), np.atleast_2d(np.asarray(B, float))
    n, m = A64.shape
    rec.check(np.shape(X) == (B2.shape[0], n), 'non-negative solve: wrong shape', **case)
    rec.check(np.all(np.isfinite(X)) and np.all(np.asarray(X) >= 0), 'non-negative solve: negative entry', **case)
    lam_ = lam or 0.0
    grad = (X @ A64 - B2) @ A64.T + lam_*X
    size = np.linalg.norm(A64) + np.sqrt(lam_)
    bound = tol*(size*np.linalg.norm(B2, axis=1) + size**2*np.linalg.norm(X, axis=1))[:, None] + 1e-300
    kkt = np.all(grad >= -bound, axis=1) & np.all(np.abs(grad*X) <= bound*(np.max(X, axis=1, keepdims=True) + 1e-300), axis=1)
    for i in np.flatnonzero(~kkt):
        if scipy_fails(A64, B2[i], X[i], lam_):
            rec.finding('scipy-nnls-dependent-rows', f'A={A64.tolist()}, B={B2[i].tolist()}', **case)
            rec.note('rows decided wrongly by scipy.optimize.nnls')
            grad[i] = 0
    rec.check(np.all(grad >= -bound), 'non-negative solve: residual can be decreased by increasing an entry', gradient=grad, **case)
    rec.check(np.all(np.abs(grad*X) <= bound*(np.max(X, axis=1, keepdims=True) + 1e-300)),
              'non-negative solve: residual can be decreased by decreasing an entry', gradient=grad, **case)
    rec.check(fingerprint(A, B) == before, 'non-negative solve changed its input', **case)
    rec.evaluated((A, B, lam) if np.any(A64) else None)


def scipy_fails(A, b, x, lam):
    """Known finding: SciPy's own answer for a row and an A with dependent rows is the returned, wrong, one."""
    from scipy.optimize import nnls as scipy_nnls
    if lam or np.linalg.matrix_rank(A) == len(A):
        return False
    y = scipy_nnls(A.T, b)[0]
    return bool(np.array_equal(x, y))


def check_orth(A, B, rec, tol=1e-9, **info):
    """X A = B with orthonormal columns of X (p x n), and the transposed problem A^T X^T = B^T."""
    M = np.asarray(B, float) @ np.asarray(A, float).T
    nuclear = np.sum(np.linalg.svd(M, compute_uv=False))
    n = A.shape[0]
    for name in ('right', 'left'):
        before = fingerprint(A, B)
        X = base.orthogonal_rightsolve(A, B) if name == 'right' else np.asarray(base.orthogonal_solve(A.T, B.T)).T
        case = dict(A=A, B=B, X=X, solver=name, **info)
        rec.check(np.shape(X) == (B.shape[0], n), 'orthogonal solve: wrong shape', **case)
        rec.check(np.all(np.isfinite(X)) and np.max(np.abs(X.T @ X - np.eye(n))) <= max(tol, 1e-10), 'orthogonal solve: not orthonormal', **case)
        rec.check(abs(np.sum(X*M) - nuclear) <= tol*nuclear, 'orthogonal solve: residual is not the smallest', nuclear=nuclear,
                  achieved=np.sum(X*M), **case)
        rec.check(fingerprint(A, B) == before, 'orthogonal solve changed its input', **case)
        rec.evaluated((A, B, name))


def nnls(job, rec):
    n, m, head = job['n'], job['m'], job['head']
    Brows = np.array(list(itertools.product((-1, 0, 2), repeat=m)), dtype=float)
    for tail in itertools.product((-1, 0, 1), repeat=n*m - len(head)):
        A = np.array(list(head) + list(tail), dtype=float).reshape(n, m)
        check_nn(A, Brows, rec)
        check_nn(A, Brows, rec, lam=0.5)
        if n*m <= 6:
            for i in (0, 1, len(Brows)//2, len(Brows) - 1):
                check_nn(A, Brows[i], rec)          # one-dimensional right hand side
                check_nn(A, Brows[i:i+1], rec)
    rec.sample({'A': A, 'rows of B': Brows[:3]})


def dependent(job, rec):
    """3 x 3 systems with dependent rows (all of them are in the thorough exploration)."""
    for a, b in [((0, -1, -1, 0, 1, 0, 0, 0, 1), (-1, -1, -1)), ((0, 0, 1, 0, 1, 0, 0, -1, -1), (-1, -1, -1)),
                 ((-1, 0, -1, 1, -1, 1, 1, 1, 1), (0, -1, 2)), ((1, -1, 0, 1, 1, -1, 1, 1, -1), (2, 2, 0)),
                 ((1, -1, 0, 1, -1, 0, 1, 1, -1), (2, 2, 0))]:
        A = np.array(a, dtype=float).reshape(3, 3)
        check_nn(A, np.array([b], dtype=float), rec)
        check_nn(A, np.array([b], dtype=float), rec, lam=0.5)


def full_rank(M):
    """Exact for small integers."""
    k = min(M.shape)
    from fractions import Fraction
    rows = [[Fraction(int(v)) for v in r] for r in M]
    rank = 0
    for c in range(M.shape[1]):
        p = next((i for i in range(rank, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            continue
        rows[rank], rows[p] = rows[p], rows[rank]
        for i in range(rank + 1, len(rows)):
            f = rows[i][c]/rows[rank][c]
            rows[i] = [a - f*b for a, b in zip(rows[i], rows[rank])]
        rank += 1
    return rank == k


def orth(job, rec):
    n, m, p, head = job['n'], job['m'], job['p'], job['head']
    values = (-1, 0, 1)
    for tail in itertools.product(values, repeat=n*m - len(head)):
        A = np.array(list(head) + list(tail), dtype=float).reshape(n, m)
        if not full_rank(A) or n > m:
            continue
        for b in itertools.product((-1, 0, 2) if p*m <= 6 else (-1, 1), repeat=p*m):
            B = np.array(b, dtype=float).reshape(p, m)
            if not full_rank(B @ A.T):
                rec.note('degenerate pairs skipped')
                continue
            check_orth(A, B, rec)
    rec.sample({'n': n, 'm': m, 'p': p})


def nn_ref(A, B):
    """The best of all the least squares solutions with some entries fixed at zero (A of full row rank)."""
    out = []
    for b in B:
        best = None
        for keep in itertools.product((False, True), repeat=len(A)):
            x = np.zeros(len(A))
            keep = np.array(keep)
            x[keep] = b @ np.linalg.pinv(A[keep]) if np.any(keep) else 0
            loss = np.sum((x @ A - b)**2)
            if np.all(x >= 0) and (best is None or loss < best[0]):
                best = (loss, x)
        out.append(best[1])
    return np.array(out)


def orth_ref(A, B):
    U, _, Vh = np.linalg.svd(B @ A.T, full_matrices=False)
    return U @ Vh


def history(job, rec):
    """All sequences of two calls of all solvers: no call depends on, or changes, another one."""
    n, m = job['n'], job['m']
    r = rng('c04h', n, m, job['seed'])
    As = [r.standard_normal((n, m)) for _ in range(2)]
    Bs = [r.standard_normal((3, m)) for _ in range(2)]
    systems = [(A, B) for A in As for B in Bs]
    families = [('non-negative', base.non_negative_rightsolve, [([A, B], nn_ref(A, B)) for A, B in systems]),
                ('orthogonal right', base.orthogonal_rightsolve, [([A, B], orth_ref(A, B)) for A, B in systems]),
                ('orthogonal left', lambda A, B: base.orthogonal_solve(A.T, B.T), [([A, B], orth_ref(A, B).T) for A, B in systems])]
    call_histories(rec, families, depth=2, tol=1e-7)
    rec.sample({'n': n, 'm': m})


def families(job, rec):
    n, m = job['n'], job['m']
    r = rng('c04', n, m, job['seed'])
    G = r.standard_normal((n, m))
    fam = {'generic': G, 'positive': np.abs(G), 'negative': -np.abs(G), 'zero': 0*G}
    if n > 1:
        D = G.copy(); D[0] = D[1]
        fam['equal rows'] = D
        D = G.copy(); D[0] = -D[1]
        fam['opposite rows'] = D
        D = G.copy(); D[0] = 0
        fam['zero row'] = D
    for s in (1e-6, 1e6):
        fam[f'scale {s}'] = s*G
    for name, A in fam.items():
        for p in (1, 2, 7, 33):
            B = r.standard_normal((p, m))
            check_nn(A, B, rec, family=name)
            check_nn(A, np.abs(B), rec, family=name)
            for lam in (0.0, 0.1, 10.0):
                check_nn(A, B, rec, lam=lam, family=name)
        feasible = np.abs(r.standard_normal((4, n))) @ A
        check_nn(A, feasible, rec, family=name, feasible=True)
        check_nn(A, B[0], rec, family=name)
        # rows that are nearly, but not, the same, and right hand sides of small and large size
        near = B[:1] + 1e-6*r.standard_normal((5, m))
        for s in (1e-12, 1e-9, 1e-6, 1, 1e6, 1e9):
            check_nn(A, s*B, rec, family=name, scale=s)
            check_nn(A, s*near, rec, family=name, scale=s)
            check_nn(s*A, s*np.concatenate([near, B[:3]]), rec, family=name, scale=s)
            check_nn(s*A, s*feasible, rec, family=name, scale=s)
        check_nn(A, np.repeat(B[:3], 2, axis=0), rec, family=name)
        # rows of very different size: each of them is a problem of its own
        for s in (1e-15, 1e-12, 1e-9, 1e-6, 1e-3):
            for first in range(4):
                check_nn(A, B[:4]*s**np.roll(np.arange(4) > 0, first)[:, None], rec, family=name, row_scale=s)
                check_nn(A, feasible*np.where(np.arange(4) == first, s, 1)[:, None], rec, family=name, row_scale=s)
        for layout in LAYOUTS[1:]:
            check_nn(with_layout(A, layout), with_layout(B, layout), rec, family=name, layout=layout)
            check_nn(with_layout(A, layout), with_layout(B[0], layout), rec, family=name, layout=layout)
        if name in ('zero', 'equal rows', 'opposite rows', 'zero row'):
            continue
        for p in (n, n + 1, n + 6):
            if n <= m:
                B = r.standard_normal((p, m))
                check_orth(A, B, rec, family=name)
                for s in (1e-9, 1e-6, 1e6, 1e9):
                    check_orth(s*A, s*B, rec, family=name)
                    check_orth(A, s*B, rec, family=name)
                for layout in LAYOUTS[1:]:
                    check_orth(with_layout(A, layout), with_layout(B, layout), rec, family=name, layout=layout)
                Q = np.linalg.qr(r.standard_normal((p, n)))[0]
                check_orth(A, Q @ A, rec, family=name)
    if n <= m:
        # full rank, but ill-conditioned: rows, or singular values, of very different size
        for k in range(0, 13, 2):
            steps = 10.0**(-k*np.arange(n)/max(n - 1, 1))
            for p in (n, n + 1, n + 6):
                B = r.standard_normal((p, m))
                check_orth(steps[:, None]*G, B, rec, family='rows of different size', condition=10.0**k)
                U, V = np.linalg.qr(r.standard_normal((n, n)))[0], np.linalg.qr(r.standard_normal((m, n)))[0]
                check_orth((U*steps) @ V.T, B, rec, family='ill-conditioned', condition=10.0**k)
                check_orth(V.T, B @ V @ np.diag(steps) @ V.T, rec, family='ill-conditioned', condition=10.0**k)
    A = np.round(3*G).astype(int)
    check_nn(A, np.arange(2*m).reshape(2, m) - 1, rec, family='int dtype')
    rec.sample({'families': list(fam)})
