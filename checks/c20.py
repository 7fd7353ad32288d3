"""C20: model diagnostics equal their definitions."""
import itertools

import numpy as np
from tenkit import metrics
from tenkit.decomposition import EvolvingTensor, KruskalTensor, Parafac2Tensor
from mc.util import LAYOUTS, close, fingerprint, kruskal_ref, rng, with_layout

ID = 'C20'
LEVEL = 'exploration'
RULE = ('core consistency: all shapes from {1..4}^3 (thorough {1..5}) and ranks 1..4 up to the smallest dimension, for exact, perturbed and unrelated data, all distributions of the scales over the '
        'modes from a set of 27, all sign flips, all permutations, all weight vectors from {-2, 1/2, 3}^R, both normalisations, and PARAFAC2 models with equal '
        'and irregular slices; leverages: all integer matrices with entries -1..1 up to 4 x 2 and 3 x 3, random ones, columns of very different length and nearly collinear columns (condition numbers up to 1e7); degeneracy: integer and random '
        'models of 1..4 modes, with all single-component extractions; completion score: all binary masks of 2 x 2 x 2 and 3 x 3 data and all weights 0, 1/4, 1 of six entries; explained fraction: all pairs from a set of '
        'tensors of order 1..4; all memory layouts')
ASSUMPTIONS = ['factor matrices of full column rank with a moderate condition number (core consistency)', 'no zero columns or zero data']


def jobs(tier, seed):
    top = 4 if tier == 'quick' else 5
    out = [{'kind': 'core', 'shape': [i, j, k], 'seed': seed, 'n': 1 if tier == 'quick' else 3} for i in range(1, top + 1) for j in range(1, top + 1) for k in range(1, top + 1)]
    out += [{'kind': 'core pf2', 'rank': r, 'slices': s, 'seed': seed} for r in (1, 2, 3) for s in ([4, 4, 4], [3, 5, 4], [4, 3, 6, 5])]
    out += [{'kind': 'leverage', 'rows': n, 'columns': r, 'seed': seed} for n in range(1, 5) for r in range(1, min(n, 3) + 1) if n*r <= 9]
    out += [{'kind': 'degeneracy', 'rank': r, 'seed': seed} for r in (1, 2, 3, 4)]
    out += [{'kind': 'fractions', 'seed': seed}, {'kind': 'masks', 'shape': [2, 2, 2], 'seed': seed}, {'kind': 'masks', 'shape': [3, 3], 'seed': seed}]
    return out


def run(job, rec):
    {'core': core, 'core pf2': core_pf2, 'leverage': leverage, 'degeneracy': degeneracy, 'fractions': fractions, 'masks': masks}[job['kind']](job, rec)


# ---------------------------------------------------------------- core consistency

def core_reference(X, factors, normalized):
    """From the least-squares Tucker core with evenly scaled factors.  Returns (value, tolerance)."""
    norms = [np.sqrt(np.sum(f**2, axis=0)) for f in factors]
    even = (norms[0]*norms[1]*norms[2])**(1/3)
    scaled = [f/n*even for f, n in zip(factors, norms)]
    G = X
    cond = 1.0
    for f in scaled:   # the first axis moves to the end each time
        u, s, vt = np.linalg.svd(f, full_matrices=False)
        cond *= s[0]/s[-1]
        G = np.tensordot(G, (vt.T/s) @ u.T, axes=(0, 1))
    rank = factors[0].shape[1]
    T = np.zeros((rank,)*3)
    for r in range(rank):
        T[r, r, r] = 1
    distance = np.sum((G - T)**2)
    denominator = np.sum(G**2) if normalized else rank
    # the lengths of columns are only known to 1e-15
    value = 100*(1 - distance/denominator)
    return value, 1e-8*(100 + abs(value)) + 100*1e-12*cond*(1 + np.linalg.norm(G))**2*(1 + distance)/min(1, denominator)**2, cond


def core(job, rec):
    shape = tuple(job['shape'])
    for rank in range(1, min(min(shape), 4) + 1):
        for n in range(job['n']):
            r = rng('core', shape, rank, job['seed'], n)
            for kind in ('exact', 'near', 'noise', 'integer'):
                if kind == 'integer':
                    base = [r.randint(-2, 3, size=(s, rank)) + 3.0*np.eye(s, rank) for s in shape]
                else:
                    base = [r.standard_normal((s, rank)) + np.eye(s, rank) for s in shape]
                if min(np.linalg.svd(f, compute_uv=False)[-1]/np.linalg.svd(f, compute_uv=False)[0] for f in base) < 0.03:
                    rec.note('ill-conditioned')
                    continue
                X = kruskal_ref(base)
                if kind in ('near', 'noise'):
                    X = (X if kind == 'near' else 0*X) + 0.3*np.linalg.norm(X)/np.sqrt(X.size)*r.standard_normal(shape)
                expected = {normalized: core_reference(X, base, normalized) for normalized in (False, True)}
                variants(rec, job, shape, rank, kind, X, base, expected, r)
    rec.sample({'shape': shape})


def one(rec, X, factors, weights, expected, exact, **info):
    """The function on factors with the weights moved in, and the method with weights."""
    moved = [f.copy() for f in factors]
    moved[0] = moved[0]*weights
    before = fingerprint(X, *moved)
    for normalized in (False, True):
        value, tol, cond = expected[normalized]
        tensor = KruskalTensor([f.copy() for f in factors], np.array(weights, dtype=float))
        kept = fingerprint(*tensor.factor_matrices, tensor.weights)
        for got, name in ((metrics.core_consistency(X, *moved, normalized=normalized), 'function'), (tensor.core_consistency(X, normalized=normalized), 'method')):
            rec.check(np.size(got) == 1 and abs(float(got) - value) <= tol + 1e-7, f'core consistency ({name})', got=got, expected=value, normalized=normalized, **info)
            rec.check(not exact or abs(float(got) - 100) <= tol + 1e-7, f'the core consistency of an exact model is not 100 ({name})', got=got, normalized=normalized, **info)
        rec.check(fingerprint(*tensor.factor_matrices, tensor.weights) == kept, 'the tensor was modified', **info)
    rec.check(fingerprint(X, *moved) == before, 'the arguments were modified', **info)
    rec.evaluated((factors, weights), n=4)


def variants(rec, job, shape, rank, kind, X, base, expected, r):
    exact = kind in ('exact', 'integer')
    info = dict(shape=shape, rank=rank, kind=kind)
    ones = np.ones(rank)
    one(rec, X, base, ones, expected, exact, **info)
    # scales distributed over the modes
    scale = 10.0**np.linspace(-1, 1, rank) if rank > 1 else np.array([7.0])
    for powers in itertools.product((-1, 0, 1), repeat=3):
        scaled = [f*scale**p for f, p in zip(base, powers)]
        one(rec, X, scaled, scale**(-float(sum(powers))), expected, exact, powers=powers, **info)
        if sum(powers) == 0:
            for normalized in (False, True):
                got = metrics.core_consistency(X, *scaled, normalized=normalized)
                rec.check(abs(float(got) - expected[normalized][0]) <= expected[normalized][1] + 1e-7, 'core consistency depends on how components are scaled', got=got, powers=powers, **info)
    # small and large models: the core does not depend on the units
    for factor_scale in itertools.product((1e-7, 1.0, 1e7), repeat=3):
        total = float(np.prod(factor_scale))
        got = metrics.core_consistency(X*total, *[f*u for f, u in zip(base, factor_scale)])
        rec.check(abs(float(got) - expected[False][0]) <= expected[False][1] + 1e-4*(1 + expected[False][2])*(100 + abs(expected[False][0])), 'core consistency depends on the units', got=got, expected=expected[False][0], units=factor_scale, **info)
        if factor_scale[0]*1e-6/total < 1e-8:
            continue   # columns of (nearly) no length
        got = metrics.core_consistency(X*1e-6, *[f*u for f, u in zip(base, (factor_scale[0]*1e-6/total, *factor_scale[1:]))], normalized=True)
        rec.check(abs(float(got) - expected[True][0]) <= expected[True][1] + 1e-4*(1 + expected[True][2])*(100 + abs(expected[True][0])), 'core consistency depends on the units', got=got, expected=expected[True][0], units=factor_scale, **info)
        rec.evaluated((shape, rank, kind, factor_scale), n=2)
    # signs that leave the tensor as it is
    for s in itertools.product((1, -1), repeat=2*rank):
        s = np.array(s).reshape(2, rank)
        one(rec, X, [base[0]*s[0], base[1]*s[1], base[2]*s[0]*s[1]], ones, expected, exact, signs=s, **info)
    for p in itertools.permutations(range(rank)):
        one(rec, X, [f[:, list(p)] for f in base], ones, expected, exact, permutation=p, **info)
    for w in itertools.product((-2.0, 0.5, 3.0), repeat=rank) if rank < 4 else [(-2.0, 0.5, 3.0, 1.0)]:
        w = np.array(w)
        for m in range(3):
            one(rec, X, [f/w if i == m else f for i, f in enumerate(base)], w, expected, exact, vector=w, mode=m, **info)
    # normalised components
    tensor = KruskalTensor([f.copy() for f in base]).normalize_components()
    one(rec, X, tensor.factor_matrices, tensor.weights, expected, exact, normalised=True, **info)
    for layout in LAYOUTS:
        got = metrics.core_consistency(with_layout(X, layout), *[with_layout(f, layout) for f in base])
        rec.check(abs(float(got) - expected[False][0]) <= expected[False][1] + 1e-7, 'core consistency depends on the memory layout', layout=layout, got=got, **info)
        rec.evaluated()
    if kind == 'integer':
        for types in itertools.product(('i8', 'f8', 'i2'), repeat=4):
            got = metrics.core_consistency(np.round(X).astype(types[3]), *[f.astype(t) for f, t in zip(base, types)])
            rec.check(abs(float(got) - expected[False][0]) <= expected[False][1] + 1e-7, 'core consistency depends on the number types', types=types, got=got, **info)
            rec.evaluated()
    if len(set(shape)) == 3:
        try:
            tensor.core_consistency(X[..., None])
        except Exception:
            pass


def core_pf2(job, rec):
    rank, slices = job['rank'], job['slices']
    I = 4
    for n in range(12):
        r = rng('core pf2', rank, slices, job['seed'], n)
        A, F, C = r.standard_normal((I, rank)) + np.eye(I, rank), r.standard_normal((rank, rank)) + 2*np.eye(rank), r.random_sample((len(slices), rank)) + np.eye(len(slices), rank)
        P = [np.linalg.qr(r.standard_normal((j, rank)))[0] for j in slices]
        tensor = Parafac2Tensor(A, F, C, P, warning=False)
        X = [A @ np.diag(C[k]) @ (P[k] @ F).T for k in range(len(slices))]
        for noise in (0, 0.1, 1.0):
            Y = [x + noise*r.standard_normal(x.shape) for x in X]
            projected = np.stack([y @ p for y, p in zip(Y, P)], axis=2)
            value, tol, cond = core_reference(projected, [A, F, C], False)
            if cond > 3e4:
                rec.note('ill-conditioned')
                continue
            forms = [Y]
            if len(set(slices)) == 1:
                forms.append(np.stack(Y))
            for form in forms:
                for projections in (P, tuple(P), tensor.projection_matrices):
                    for scale in (1.0, 10.0, -0.3):
                        before = fingerprint(*Y, *P, A, F, C)
                        got = metrics.core_consistency_parafac2(form, projections, A*scale, F/scale, C)
                        rec.check(np.size(got) == 1 and abs(float(got) - value) <= tol + 1e-7, 'core consistency of PARAFAC2', got=got, expected=value, rank=rank, slices=slices, noise=noise, scale=scale)
                        rec.check(noise > 0 or abs(float(got) - 100) <= tol + 1e-7, 'core consistency of an exact PARAFAC2 model is not 100', got=got, rank=rank, slices=slices)
                        rec.check(fingerprint(*Y, *P, A, F, C) == before, 'the arguments were modified')
                        rec.evaluated((n, noise, scale, rank, slices))
    rec.sample({'rank': rank, 'slices': slices})


# ---------------------------------------------------------------- leverage

def leverage(job, rec):
    n, rank = job['rows'], job['columns']

    def judge(M, **info):
        u, s, _ = np.linalg.svd(M, full_matrices=False)
        nonzero = s > 1e-10*s[0]   # integer matrices have none in between
        if not np.all(nonzero):
            rec.note('rank deficient')
        expected = np.sum(u[:, nonzero]**2, axis=1)
        condition = s[nonzero][0]/s[nonzero][-1] if np.any(nonzero) else 1.0
        before = fingerprint(M)
        got = metrics.leverage(M)
        rec.check(np.shape(got) == (n,) and np.max(np.abs(got - expected)) <= 1e-9 + 1e-14*condition**2, 'leverage', got=got, expected=expected, matrix=M, **info)
        rec.check(fingerprint(M) == before, 'leverage modifies its argument', matrix=M)
        rec.evaluated(M)

    for entries in itertools.product((-1.0, 0.0, 1.0), repeat=n*rank):
        judge(np.array(entries).reshape(n, rank))
        if sum(entries) > 0:
            judge(np.array(entries).reshape(n, rank).astype(int))
    r = rng('leverage', n, rank, job['seed'])
    for k in range(50):
        M = r.standard_normal((n, rank))*10.0**r.randint(-1, 2, size=rank)
        for layout in LAYOUTS:
            judge(with_layout(M, layout), layout=layout)
    # components of very different size, and nearly collinear ones
    for scales in itertools.product((1.0, 1e-3, 3e-7, 1e4), repeat=rank):
        if max(scales)/min(scales) < 1e7:
            judge(r.standard_normal((n, rank))*np.array(scales), scales=scales)
    for unit in (1e-9, 1e-4, 1e8):
        for n_ in range(4):
            judge(unit*r.standard_normal((n, rank)), unit=unit)
    for k in range(1, 7):
        for M in (r.standard_normal((n, rank)), np.abs(r.standard_normal((n, rank)))):
            M = M[:, :1] + 10.0**-k*M
            s = np.linalg.svd(M, compute_uv=False)
            if s[-1] > 1e-8*s[0]:
                judge(M, distance=10.0**-k)
            else:
                rec.note('rank not clear')
    rec.sample({'rows': n, 'columns': rank})


# ---------------------------------------------------------------- degeneracy

def congruences(factors):
    rank = factors[0].shape[1]
    out = np.ones((rank, rank))
    for f in factors:
        for i in range(rank):
            for j in range(rank):
                out[i, j] *= np.dot(f[:, i], f[:, j])/np.sqrt(np.dot(f[:, i], f[:, i])*np.dot(f[:, j], f[:, j]))
    return out


def degeneracy(job, rec):
    rank = job['rank']
    for sizes in ((3,), (1, 2), (3, 4), (2, 3, 4), (4, 1, 3), (2, 3, 2, 3), (1, 1, 1)):
        for n in range(30):
            r = rng('degeneracy', rank, sizes, n, job['seed'])
            factors = [r.randint(-2, 3, size=(s, rank)).astype(float) for s in sizes] if n % 2 else [r.standard_normal((s, rank)) for s in sizes]
            for f in factors:
                f[0, np.all(f == 0, axis=0)] = 1
            for weights in (None, 10.0**r.randint(-2, 3, size=rank)*r.choice([-1, 1], size=rank)):
                tensor = KruskalTensor([f.copy() for f in factors], weights)
                before = fingerprint(*tensor.factor_matrices, tensor.weights)
                got = tensor.degeneracy()
                rec.check(close(got, congruences(factors), rtol=0, atol=1e-10), 'degeneracy of a Kruskal tensor', got=got, expected=congruences(factors), sizes=sizes, weights=weights)
                rec.check(fingerprint(*tensor.factor_matrices, tensor.weights) == before, 'degeneracy modifies the tensor')
                rec.evaluated((factors, weights))
            for unit in (1e-5, 1e6):
                got = KruskalTensor([f*unit for f in factors]).degeneracy()
                rec.check(close(got, congruences(factors), rtol=0, atol=1e-8), 'degeneracy depends on the units', got=got, expected=congruences(factors), sizes=sizes, unit=unit)
            if n % 2:
                got = KruskalTensor([f.astype(int) for f in factors]).degeneracy()
                rec.check(close(got, congruences(factors), rtol=0, atol=1e-10), 'degeneracy of a Kruskal tensor of whole numbers', got=got, expected=congruences(factors), sizes=sizes)
    for slices in ((4, 4, 4), (4, 5, 6), (4,), (5, 4)):
        for n in range(30):
            r = rng('degeneracy evolving', rank, slices, n, job['seed'])
            A, C = r.standard_normal((3, rank)), r.standard_normal((len(slices), rank))
            B = [r.standard_normal((j, rank)) for j in slices]
            F = r.standard_normal((rank, rank))
            P = [np.linalg.qr(r.standard_normal((j, rank)))[0] for j in slices]
            evolving, parafac2 = EvolvingTensor(A, B, C, warning=False), Parafac2Tensor(A, F, C, P, warning=False)
            for tensor, Bs in ((evolving, B), (parafac2, [p @ F for p in P])):
                before = fingerprint(A, C, F, *B, *P)
                got = tensor.degeneracy()
                expected = congruences([A, np.concatenate(Bs), C])
                rec.check(close(got, expected, rtol=0, atol=1e-10), f'degeneracy of {type(tensor).__name__}', got=got, expected=expected, slices=slices)
                rec.check(fingerprint(A, C, F, *B, *P) == before, 'degeneracy modifies the tensor')
                rec.evaluated((slices, n, type(tensor).__name__))
            f, g = [A, C], [r.standard_normal((3, rank + 1)), r.standard_normal((len(slices), 2))]
            for a, b in zip(f, g):
                got = metrics._tucker_congruence(a, b) if hasattr(metrics, '_tucker_congruence') else None
                if got is not None:
                    want = (a/np.linalg.norm(a, axis=0)).T @ (b/np.linalg.norm(b, axis=0))
                    rec.check(close(got, want, rtol=0, atol=1e-10), 'congruence', got=got, expected=want)
    rec.sample({'rank': rank})


# ---------------------------------------------------------------- fractions

def norm2(x):
    return float(sum(v*v for v in np.asarray(x, dtype=float).ravel().tolist()))


def fractions(job, rec):
    r = rng('fractions', job['seed'])
    for shape in ((1,), (5,), (2, 3), (3, 3), (2, 3, 4), (1, 2, 1), (2, 2, 3, 2)):
        tensors = [r.standard_normal(shape), r.random_sample(shape), 100*r.standard_normal(shape), r.randint(1, 5, size=shape).astype(float), 1e-3*r.standard_normal(shape), 1e-8*r.random_sample(shape), 1e9*r.random_sample(shape)]
        for X, Y in itertools.product(tensors, [*tensors, np.zeros(shape)]):
            for layout in LAYOUTS:
                a, b = with_layout(X, layout), with_layout(Y, layout)
                before = fingerprint(a, b)
                got = metrics.percent_explained(a, b)
                expected = 1 - norm2(X - Y)/norm2(X)
                rec.check(np.ndim(got) == 0 and abs(got - expected) <= 1e-10*(1 + abs(expected)), 'explained fraction', got=got, expected=expected, shape=shape)
                for W in (np.zeros(shape), (np.arange(X.size).reshape(shape) % 2 == 1).astype(float) if X.size > 1 else np.zeros(shape)):
                    got = metrics.tensor_completion_score(a, b, with_layout(W, layout))
                    expected = np.sqrt(norm2((X - Y)[W == 0])/norm2(X[W == 0]))
                    rec.check(np.ndim(got) == 0 and abs(got - expected) <= 1e-10*(1 + abs(expected)), 'completion score', got=got, expected=expected, shape=shape, layout=layout)
                rec.check(fingerprint(a, b) == before, 'the arguments were modified')
                rec.evaluated((X, Y, layout), n=3)
        whole = [r.randint(-9, 10, size=shape), r.randint(1, 10, size=shape)]
        for X, Y in itertools.product(whole[1:], [*whole, tensors[0]]):
            for t in ('i8', 'i4', 'f4'):
                a, b = X.astype(t), Y if Y.dtype == float else Y.astype(t)
                got, expected = metrics.percent_explained(a, b), 1 - norm2(X - Y)/norm2(X)
                rec.check(abs(float(got) - expected) <= (1e-5 if t == 'f4' else 1e-10)*(1 + abs(expected)), 'explained fraction of whole numbers', got=got, expected=expected, shape=shape, type=t)
                W = np.arange(X.size).reshape(shape) % 2 == 1
                for mask in (W.astype(float), W, W.astype('i1')):
                    got, expected = metrics.tensor_completion_score(a, b, mask), np.sqrt(norm2((X - Y)[~W])/norm2(X[~W]))
                    rec.check(abs(float(got) - expected) <= (1e-5 if t == 'f4' else 1e-10)*(1 + expected), 'completion score of whole numbers', got=got, expected=expected, shape=shape, type=t, mask=mask.dtype.str)
                rec.evaluated((X, Y, t), n=4)
    rec.sample({'kind': 'fractions'})


def masks(job, rec):
    shape = tuple(job['shape'])
    r = rng('masks', shape, job['seed'])
    pairs = [(r.standard_normal(shape), r.standard_normal(shape)), (r.random_sample(shape), r.random_sample(shape))]
    pairs.append((pairs[0][0], pairs[0][0]))
    for bits in itertools.product((0, 1), repeat=int(np.prod(shape))):
        if all(bits):
            continue
        W = np.array(bits).reshape(shape)
        for X, Y in pairs:
            for mask in (W, W.astype(float)):
                before = fingerprint(X, Y, mask)
                got = metrics.tensor_completion_score(X, Y, mask)
                expected = np.sqrt(norm2((X - Y)[W == 0])/norm2(X[W == 0]))
                rec.check(np.ndim(got) == 0 and abs(got - expected) <= 1e-10*(1 + expected), 'completion score', got=got, expected=expected, mask=W)
                rec.check(fingerprint(X, Y, mask) == before, 'the arguments were modified', mask=W)
                rec.evaluated((bits, X, Y))
    # weights of the entries between 0 and 1: entries count by how much they are missing
    flat = int(np.prod(shape))
    for levels in itertools.product((0, 0.25, 1), repeat=min(flat, 6)):
        W = np.resize(np.array(levels, dtype=float), flat).reshape(shape)
        if np.all(W == 1):
            continue
        for X, Y in pairs:
            got = metrics.tensor_completion_score(X, Y, W)
            expected = np.sqrt(norm2((1 - W)*(X - Y))/norm2((1 - W)*X))
            rec.check(np.ndim(got) == 0 and abs(got - expected) <= 1e-10*(1 + expected), 'completion score', got=got, expected=expected, weights=W)
            rec.evaluated((levels, X, Y))
    rec.sample({'shape': shape})
