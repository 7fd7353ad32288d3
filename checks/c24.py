"""C24: every initialisation delivers the starting point it names."""
import itertools
import os

import numpy as np
from tenkit.decomposition import CP_ALS, KruskalTensor, Parafac2_ALS, Parafac2Tensor
from tenkit.decomposition.cmtf import CMTF_ALS
from mc import fits
from mc.fits import cp_tensor, distance, low_rank, model, pf2_data, pf2_size, pf2_slices, pf2_sse
from mc.util import kruskal_ref, raises, rng, scratch, unfold_ref, with_layout

ID = 'C24'
LEVEL = 'exploration'
RULE = ('CP: every shape of order 2 (sides 1-4), 3 (1-3; thorough 1-4), 4 (1-2; thorough 1-3) and 5 (1-2) x every rank 1-4 x every scheme in several spellings x every constraint assignment x 6 data families incl. bytes and rank '
        'deficient data x seeds; PARAFAC2: every I 1-4, every multiset of 1-4 slice lengths 1-4, every rank 1-4, as list and as tensor; coupled: every coupled mode; stored starts: every stored iteration '
        'count and frequency, read through both ways of naming the file; every unknown scheme name in a list (incl. near misses); a start given together with every scheme that takes none')
ASSUMPTIONS = ['PARAFAC2 slices have at least as many columns as the rank', 'orthonormal projections of SVD starts: slices whose Procrustes problem has full rank', 'the start is observed as the decomposition of a fit without iterations', 'random numbers: 4 seeds of the generator (thorough 16)']


def jobs(tier, seed):
    deep = tier == 'thorough'
    seeds = [seed*100 + i for i in range(16 if deep else 4)]
    out = []
    for n, sides in ((2, 4), (3, 4 if deep else 3), (4, 3 if deep else 2), (5, 2)):
        for first in range(1, sides + 1):
            for rank in (1, 2, 3, 4):
                out.append({'part': 'cp', 'order': n, 'sides': sides, 'first': first, 'rank': rank, 'seeds': seeds})
    for I in (1, 2, 3, 4):
        for rank in (1, 2, 3, 4):
            out.append({'part': 'pf2', 'I': I, 'rank': rank, 'seeds': seeds, 'longest': 4 if deep else 3})
    for n in (2, 3, 4):
        for mode in range(n):
            out.append({'part': 'cmtf', 'order': n, 'mode': mode, 'seeds': seeds})
    for kind in ('cp', 'pf2'):
        out.append({'part': 'stored', 'kind': kind, 'seed': seed, 'most': 8 if deep else 5})
    out.append({'part': 'names', 'seed': seed})
    out.append({'part': 'ignored', 'seed': seed})
    return out


def run(job, rec):
    {'cp': run_cp, 'pf2': run_pf2, 'cmtf': run_cmtf, 'stored': run_stored, 'names': run_names, 'ignored': run_ignored}[job['part']](job, rec)
    rec.sample({k: v for k, v in job.items() if k != 'seeds'})


def spellings(name):
    return [name, name.upper(), name.capitalize(), ''.join(c.upper() if i % 2 else c for i, c in enumerate(name))]


def unit_columns(f, tol=1e-7):
    return np.all(np.abs(np.linalg.norm(f, axis=0) - 1) <= tol)


def orthonormal(f, tol=1e-10):
    return np.max(np.abs(f.T @ f - np.eye(f.shape[1]))) <= tol


def spans_leading(f, M, rank):
    """The columns of f span a space that carries as much of M as any space of that dimension."""
    q, s, _ = np.linalg.svd(f, full_matrices=False)
    q = q[:, s > 1e-10*max(s[0], 1e-300)] if s[0] > 0 else q[:, :0]
    best = np.sum(np.linalg.svd(M, compute_uv=False)[:rank]**2)
    return abs(np.sum((q.T @ M)**2) - best) <= 1e-9*np.sum(M**2)


# --- CP --------------------------------------------------------------------------------------------------------------

def cp_data(shape, seed):
    yield 'noise', low_rank(shape, 2, seed, 'noise')
    yield 'integer', low_rank(shape, 2, seed, 'integer')
    yield 'exact', low_rank(shape, 1, seed, 'exact')
    yield 'scaled', low_rank(shape, 2, seed, 'scaled')
    sparse = np.zeros(shape)
    sparse.flat[-1] = 1
    yield 'one element', sparse
    yield 'bytes', rng('bytes', shape, seed).randint(-120, 121, size=shape).astype(np.int8)


def assignments(n):
    yield {}
    for nn in itertools.product((False, True), repeat=n):
        yield {'non_negativity_constraints': list(nn)}
    for mode in range(n):
        yield {'orthonormality_constraints': [m == mode for m in range(n)]}
    yield {'ridge_penalties': [0.3*(m + 1) for m in range(n)]}


def run_cp(job, rec):
    rank, n = job['rank'], job['order']
    for rest in itertools.product(range(1, job['sides'] + 1), repeat=n - 1):
        shape = (job['first'], *rest)
        for i, seed in enumerate(job['seeds']):
            for random_method in spellings('normal')[:2] + spellings('uniform')[:2]:
                np.random.seed(seed)
                t = KruskalTensor.random_init(shape, rank, random_method=random_method)
                check_random_cp(rec, t, shape, rank, seed=seed, method=random_method)
                rec.check(random_method.lower() == 'normal' or all(np.all(f >= 0) for f in t.factor_matrices), 'a uniform start has negative entries', shape=shape, rank=rank)
                rec.evaluated((shape, rank, seed, random_method))
            for kind, X in cp_data(shape, seed):
                for k, options in enumerate(assignments(n)):
                    if (k + i) % 3:
                        continue
                    orth = options.get('orthonormality_constraints')
                    if orth and shape[orth.index(True)] < rank:
                        continue
                    start_cp(rec, shape, rank, seed, kind, with_layout(X, ('C', 'F', 'view')[(k + seed) % 3]), options, orth, i + k)


def check_random_cp(rec, t, shape, rank, **info):
    rec.check(len(t.factor_matrices) == len(shape) and all(f.shape == (s, rank) for f, s in zip(t.factor_matrices, shape)), 'a random start has other shapes', shape=shape, rank=rank, **info)
    rec.check(all(unit_columns(f) for f in t.factor_matrices), 'a random start has components that are not unit vectors', shape=shape, rank=rank, factors=t.factor_matrices, **info)
    rec.check(np.shape(t.weights) == (rank,) and np.all(t.weights == 1), 'a random start has weights that are not one', shape=shape, rank=rank, got=t.weights, **info)


def start_cp(rec, shape, rank, seed, kind, X, options, orth, number):
    info = dict(data=kind, seed=seed, options=options)
    # random
    np.random.seed(seed)
    dec = CP_ALS(rank, init=spellings('random')[number % 4], **options)
    dec.fit(X, max_its=0)
    t = dec.decomposition
    check_random_cp(rec, t, shape, rank, **info)
    rec.check(dec.current_iteration == 0 and dec.X is X, 'a fit without iterations', **info)
    if orth:
        rec.check(orthonormal(t.factor_matrices[orth.index(True)]), 'the start of an orthonormal mode is not orthonormal', shape=shape, rank=rank, **info)
    nn = options.get('non_negativity_constraints') or []
    rec.check(all(np.all(f >= 0) for f, c in zip(t.factor_matrices, nn) if c), 'the random start of a non-negative mode has negative entries', shape=shape, rank=rank, **info)
    rec.evaluated((shape, rank, info, 'random'))
    # SVD
    dec = CP_ALS(rank, init=spellings('svd')[number % 4], **options)
    if rank > min(shape):
        error = raises(dec.fit, X, max_its=0)
        rec.check(isinstance(error, ValueError), 'an SVD start with a too large rank is not refused', shape=shape, rank=rank, error=repr(error), **info)
    else:
        dec.fit(X, max_its=0)
        t = dec.decomposition
        for mode, f in enumerate(t.factor_matrices):
            rec.check(f.shape == (shape[mode], rank) and orthonormal(f), 'the factors of an SVD start are not orthonormal', shape=shape, rank=rank, mode=mode, got=f, **info)
            rec.check(spans_leading(f, unfold_ref(np.asarray(X, dtype=float), mode), rank), 'an SVD start does not span the leading singular vectors', shape=shape, rank=rank, mode=mode, got=f, **info)
        rec.check(np.shape(t.weights) == (rank,) and np.all(t.weights == 1), 'weights of an SVD start', shape=shape, rank=rank, **info)
        # ... and the fit starts from there
        dec.continue_fit(max_its=2)
        rec.check(all(f.shape == (s, rank) and np.all(np.isfinite(f)) for f, s in zip(dec.factor_matrices, shape)), 'a fit from an SVD start', shape=shape, rank=rank, **info)
    rec.evaluated((shape, rank, info, 'svd'))
    # precomputed
    if orth:
        return
    r = rng('start', shape, rank, seed)
    for weights in (None, np.ones(rank), np.arange(1., rank + 1), -np.arange(1., rank + 1)/4, np.eye(rank)[0]):
        factors = [r.standard_normal((s, rank)) for s in shape]
        expected = kruskal_ref(factors, weights)
        size = sum(abs((np.ones(rank) if weights is None else weights)[c])*np.prod([np.linalg.norm(f[:, c]) for f in factors]) for c in range(rank))
        dec = CP_ALS(rank, init=spellings('precomputed')[number % 4], **options)
        dec.fit(X, max_its=0, initial_decomposition=KruskalTensor(factors, None if weights is None else weights.copy()))
        t = dec.decomposition
        rec.check(np.max(np.abs(kruskal_ref(t.factor_matrices, t.weights) - expected)) <= 1e-12*size, 'the fit does not start from the given components', shape=shape, rank=rank, weights=weights, **info)
        rec.check(t.rank == rank and [f.shape for f in t.factor_matrices] == [(s, rank) for s in shape], 'shapes of a given start', shape=shape, rank=rank, **info)
        rec.evaluated((shape, rank, info, weights))


# --- PARAFAC2 --------------------------------------------------------------------------------------------------------

def run_pf2(job, rec):
    I, rank = job['I'], job['rank']
    for K in (1, 2, 3, 4):
        for J in itertools.combinations_with_replacement(range(1, job['longest'] + 1), K):
            for turn in range(len(set(J))):
                lengths = J[turn:] + J[:turn]
                for i, seed in enumerate(job['seeds']):
                    kind = ('noise', 'mixed', 'nonneg', 'exact')[(i + K) % 4]
                    if min(lengths) < rank:
                        X = [rng('short', I, lengths, seed).standard_normal((I, j)) for j in lengths]
                    else:
                        X = pf2_data(I, lengths, rank, seed, kind)
                    if i == 3 and K > 1:
                        X[0] *= 0      # an empty slice
                    start_pf2(rec, I, lengths, rank, seed, X, i)
                    if i == 1:
                        r = rng('bytes', I, lengths, seed)
                        start_pf2(rec, I, lengths, rank, seed, [r.randint(0, 256, size=x.shape).astype(np.uint8) for x in X], i)


def check_pf2_shapes(rec, d, I, J, rank, defined=None, **info):
    rec.check(d.A.shape == (I, rank) and d.blueprint_B.shape == (rank, rank) and d.C.shape == (len(J), rank) and [p.shape for p in d.projection_matrices] == [(j, rank) for j in J],
              'the start has other shapes', got=[d.A.shape, d.blueprint_B.shape, d.C.shape, [p.shape for p in d.projection_matrices]], **info)
    rec.check(all(orthonormal(p) for p, ok in zip(d.projection_matrices, defined or [True]*len(J)) if ok), 'the projections of the start are not orthonormal', got=d.projection_matrices, **info)
    rec.check(all(np.all(np.isfinite(a)) for a in (d.A, d.blueprint_B, d.C)), 'the start is not finite', **info)
    rec.check(len(set(id(p) for p in d.projection_matrices)) == len(J) and not any(np.shares_memory(p, q) for p, q in itertools.combinations(d.projection_matrices, 2)),
              'slices share a projection matrix', **info)


def start_pf2(rec, I, J, rank, seed, X, number):
    info = dict(rows=I, lengths=J, components=rank, seed=seed)
    regular = len(set(J)) == 1
    forms = [('list', [x.copy() for x in X])] + ([('tensor', np.stack(X, axis=2))] if regular else [])
    X = [x.astype(float) for x in X]
    for form, data in forms:
        def fitted(name, **options):
            np.random.seed(seed)
            dec = Parafac2_ALS(rank, init=spellings(name)[number % 4], print_frequency=-1)
            dec.fit(data, max_its=0, **options)
            return dec
        if min(J) >= rank:
            d = fitted('random').decomposition
            check_pf2_shapes(rec, d, I, J, rank, form=form, scheme='random', **info)
            rec.evaluated((info, form, 'random'))
        if rank > min(I, *J):
            error = raises(fitted, 'svd')
            rec.check(isinstance(error, ValueError), 'an SVD start with a too large rank is not refused', form=form, error=repr(error), **info)
        else:
            dec = fitted('svd')
            d = dec.decomposition
            # (where the Procrustes problem of a slice has no unique solution, singular values are truncated)
            spectra = [np.linalg.svd(x.T @ (d.C[k]*d.A) @ d.blueprint_B.T, compute_uv=False) for k, x in enumerate(X)]
            check_pf2_shapes(rec, d, I, J, rank, [s[-1] > 1e-10*max(s[0], 1e-300) for s in spectra], form=form, scheme='svd', **info)
            rec.check(spans_leading(d.A, np.concatenate(X, axis=1), rank), 'an SVD start does not span the leading singular vectors', form=form, got=d.A, **info)
            progress(rec, dec, X, info, 'svd')
        rec.evaluated((info, form, 'svd'))
        if regular and J[0] >= rank:
            dec = fitted('cp')
            d = dec.decomposition
            check_pf2_shapes(rec, d, I, J, rank, form=form, scheme='cp', **info)
            m = model(d)
            B = [p @ m['F'] for p in m['P']]
            scale = max(np.max(np.abs(b)) for b in B)
            rec.check(all(np.max(np.abs(b - B[0])) <= 1e-10*scale for b in B), 'a CP start does not have the same second factor for all slices', form=form, **info)
            total = sum(np.sum(x**2) for x in X)
            rec.check(pf2_sse(X, m) <= total*(1 + 1e-9) + 1e-9*pf2_size(m)**2, 'a CP start is worse than nothing', form=form, got=pf2_sse(X, m), total=total, **info)
            progress(rec, dec, X, info, 'cp')
            if number == 0:
                # tensors of rank one are fitted exactly
                r = rng('rank one', I, J, seed)
                a, b, c = r.standard_normal(I), r.standard_normal(J[0]), r.standard_normal(len(J))
                exact = [np.outer(a, b)*w for w in c]
                dec = Parafac2_ALS(rank, init='cp', print_frequency=-1)
                dec.fit(np.stack(exact, axis=2) if form == 'tensor' else exact, max_its=0)
                m = model(dec.decomposition)
                rec.check(pf2_sse(exact, m) <= 1e-6*sum(np.sum(x**2) for x in exact), 'a CP start of a tensor of rank one does not fit it', form=form, got=pf2_sse(exact, m), **info)
            rec.evaluated((info, form, 'cp'))
        elif not regular:
            error = raises(fitted, 'cp')
            rec.check(error is not None, 'a CP start from slices of different lengths is not refused', form=form, **info)
        if min(J) >= rank:
            r = rng('start', I, J, rank, seed)
            given = Parafac2Tensor(r.standard_normal((I, rank)), r.standard_normal((rank, rank)), r.standard_normal((len(J), rank)), [np.linalg.qr(r.standard_normal((j, rank)))[0] for j in J])
            before = fits.clone(model(given))
            d = fitted('precomputed', initial_decomposition=given).decomposition
            rec.check(max(np.max(np.abs(x - y)) for x, y in zip(pf2_slices(before), pf2_slices(model(d)))) <= 1e-12*pf2_size(before), 'the fit does not start from the given components', form=form, **info)
            check_pf2_shapes(rec, d, I, J, rank, form=form, scheme='precomputed', **info)
            rec.evaluated((info, form, 'precomputed'))
    if min(J) >= rank:
        for sizes in [[I, list(J), len(J)], (I, list(J), len(J))] + ([[I, J[0], len(J)], (I, J[0], len(J))] if regular else []):
            np.random.seed(seed)
            given = str(sizes)
            d = Parafac2Tensor.random_init(sizes, rank)
            check_pf2_shapes(rec, d, I, J, rank, scheme='random_init', sizes=given, **info)
            rec.check(str(sizes) == given, 'the sizes were changed', **info)
            rec.evaluated((info, given))


def progress(rec, dec, X, info, scheme):
    """Iterating from the start gives finite models that are not worse."""
    before = pf2_sse(X, model(dec.decomposition))
    dec.continue_fit(max_its=2)
    after = pf2_sse(X, model(dec.decomposition))
    total = sum(np.sum(x**2) for x in X)
    rec.check(after <= before + 1e-9*(total + before), 'iterations from the start increase the error', scheme=scheme, before=before, after=after, **info)


# --- coupled ---------------------------------------------------------------------------------------------------------

def run_cmtf(job, rec):
    n, mode = job['order'], job['mode']
    for shape in ((3, 4, 2, 3)[:n], (2, 2, 2, 2)[:n], (4, 2, 3, 2)[:n]):
        X = low_rank(shape, 2, 'cmtf', 'mixed')
        for columns in (1, 2, 5):
            Y = rng('coupled', shape, mode, columns).standard_normal((shape[mode], columns))
            for rank in (1, 2, 3, 4):
                for seed in job['seeds']:
                    for nn in [None] + [list(c) for c in itertools.product((False, True), repeat=n)]:
                        for init in ('random', 'SVD', 'Precomputed'):
                            if init == 'SVD' and rank > min(shape):
                                continue
                            info = dict(shape=shape, mode=mode, columns=columns, rank=rank, seed=seed, nonneg=nn, init=init)
                            np.random.seed(seed)
                            dec = CMTF_ALS(rank, init=init, non_negativity_constraints=nn)
                            if init == 'Precomputed':
                                r = rng('given', shape, rank, seed)
                                factors, weights = [r.standard_normal((s, rank)) for s in shape], r.standard_normal(rank)
                                expected = kruskal_ref(factors, weights)
                                dec.fit(X, [Y], [mode], max_its=0, initial_decomposition=KruskalTensor(factors, weights))
                                rec.check(np.max(np.abs(cp_tensor(model(dec.decomposition)) - expected)) <= 1e-10*(1 + fits.cp_size(model(dec.decomposition))), 'the fit does not start from the given components', **info)
                            else:
                                dec.fit(X, [Y], [mode], max_its=0)
                                rec.check(all(f.shape == (s, rank) and unit_columns(f) for s, f in zip(shape, dec.factor_matrices)) and np.max(np.abs(dec.weights - 1)) <= 1e-7, 'components of the start', **info)
                            V = dec.uncoupled_factor_matrices
                            rec.check(len(V) == 1 and V[0].shape == (columns, rank) and np.all(np.isfinite(V[0])), 'matrix factor of the start', **info)
                            rec.check(not (nn and nn[mode]) or init == 'Precomputed' or np.all(V[0] >= 0), 'the matrix factor of a non-negative mode starts with negative entries', got=V[0], **info)
                            rec.check(init == 'Precomputed' or unit_columns(V[0]), 'columns of the matrix factor of the start', got=V[0], **info)
                            rec.evaluated(info)


# --- stored starts ---------------------------------------------------------------------------------------------------

def run_stored(job, rec):
    if job['kind'] == 'cp':
        X = low_rank((3, 4, 2), 3, job['seed'], 'mixed')
        make = lambda **kw: CP_ALS(2, convergence_tol=-1, rel_loss_tol=-1, **kw)
    else:
        X = pf2_data(4, (3, 5, 4), 2, job['seed'])
        make = lambda **kw: Parafac2_ALS(2, convergence_tol=-1, print_frequency=-1, **kw)
    for count in range(1, job['most'] + 1):
        for frequency in (None, 1, 2, 3):
            for name in ('run.h5', 'Run_B.HDF5', 'random_3.h5', 'precomputed.H5'):
                with scratch() as folder:
                    path = os.path.join(folder, name)
                    log = fits.Recorder(metrics=False)
                    np.random.seed(job['seed'])
                    make(init='random', loggers=[log], checkpoint_frequency=frequency, checkpoint_path=path).fit(X, max_its=count)
                    last = log.states[-1]
                    # other files with similar names
                    for other_name in (name.lower(), name.upper(), name.swapcase(), name + '.h5', name[:-3], '_' + name, 'random', 'svd'):
                        if other_name != name:
                            make(init='random', checkpoint_path=os.path.join(folder, other_name)).fit(X, max_its=count + 1)
                    for how, options, argument in [('path', {'init': path}, {})] + [('checkpoint', {'init': s}, {'initial_decomposition': path}) for s in spellings('from_checkpoint')]:
                        info = dict(model_kind=job['kind'], iterations=count, frequency=frequency, how=how, options={k: os.path.basename(v) for k, v in options.items()})
                        dec = make(**options)
                        dec.fit(X, max_its=0, **argument)
                        rec.check(dec.current_iteration == count, 'a stored start does not have the stored iteration', got=dec.current_iteration, **info)
                        rec.check(distance(model(dec.decomposition), last) <= 1e-14, 'a stored start is not the stored model', **info)
                        rec.evaluated(info)
                        # another rank or other sizes are refused
                        other = CP_ALS(3, **options) if job['kind'] == 'cp' else Parafac2_ALS(3, print_frequency=-1, **options)
                        rec.check(isinstance(raises(other.fit, X, max_its=0, **argument), ValueError), 'a stored start of another rank is not refused', **info)
                        smaller = X[:, :3] if job['kind'] == 'cp' else [x[:, 1:] for x in X]
                        rec.check(isinstance(raises(make(**options).fit, smaller, max_its=0, **argument), ValueError), 'a stored start of other sizes is not refused', **info)


UNKNOWN = ['', 'rand', 'randm', 'random ', ' svd', 'svds', 'normal', 'uniform', 'nonsense', 'precompute', 'pre-computed', 'from checkpoint', 'fromcheckpoint', 'from_file', 'none', 'checkpoint.h5', '/nonexistent/file.h5', 'cpx']


def run_names(job, rec):
    X = low_rank((3, 3, 3), 2, job['seed'], 'mixed')
    with scratch() as folder:
        for name in UNKNOWN + [folder] + spellings('cp'):
            models = [CP_ALS(2, init=name)] + ([Parafac2_ALS(2, init=name, print_frequency=-1)] if name.lower() != 'cp' else [])
            for dec in models:
                error = raises(dec.fit, X, max_its=0)
                rec.check(isinstance(error, ValueError), 'an unknown scheme is not refused', scheme=name, model=type(dec).__name__, error=repr(error))
                rec.evaluated((name, type(dec).__name__))
            dec = CMTF_ALS(2, init=name)
            rec.check(isinstance(raises(dec.fit, X, [np.ones((3, 2))], [0], max_its=0), ValueError), 'an unknown scheme is not refused', scheme=name, model='CMTF_ALS')
    for method in ('', 'gauss', 'normal ', 'uniforms', 'rand'):
        rec.check(isinstance(raises(KruskalTensor.random_init, (2, 3), 2, random_method=method), ValueError), 'an unknown random method is not refused', method=method)
        rec.evaluated(method)


def run_ignored(job, rec):
    """A start that is given although the scheme takes none is not used: it is ignored, or the fit is refused."""
    X = low_rank((3, 4, 3), 3, job['seed'], 'mixed')
    slices = pf2_data(4, (3, 3, 3), 2, job['seed'])
    Y = rng('ignored', job['seed']).random_sample((4, 3))
    r = rng('ignored start', job['seed'])
    with scratch() as folder:
        files = {}
        for kind, make, data in (('cp', CP_ALS, X), ('pf2', Parafac2_ALS, slices)):
            files[kind] = os.path.join(folder, kind + '.h5')
            np.random.seed(job['seed'] + 7)
            make(2, max_its=2, convergence_tol=-1, print_frequency=-1, checkpoint_path=files[kind]).fit(data)
        for kind, schemes in (('cp', ['random', 'svd', files['cp']]), ('pf2', ['random', 'svd', 'cp', files['pf2']]), ('cmtf', ['random', 'svd'])):
            for scheme in [s for name in schemes for s in (spellings(name) if name not in files.values() else [name])]:
                for its in (0, 1, 3):
                    for seed in range(3):
                        if kind == 'pf2':
                            start = Parafac2Tensor(r.standard_normal((4, 2)), r.standard_normal((2, 2)), r.standard_normal((3, 2)), [np.linalg.qr(r.standard_normal((3, 2)))[0] for _ in range(3)])
                            make = lambda: Parafac2_ALS(2, init=scheme, convergence_tol=-1, print_frequency=-1)
                            give = (slices,)
                        else:
                            start = KruskalTensor([r.random_sample((s, 2)) for s in X.shape], np.array([2.0, 0.5]))
                            make = lambda: (CP_ALS if kind == 'cp' else CMTF_ALS)(2, init=scheme, convergence_tol=-1, rel_loss_tol=-1)
                            give = (X,) if kind == 'cp' else (X, [Y], [1])
                        info = dict(kind=kind, scheme=os.path.basename(scheme), its=its, seed=seed)
                        plain, other = make(), make()
                        np.random.seed(seed)
                        plain.fit(*give, max_its=its)
                        kept = fits.arrays(model(start))
                        kept = [a.copy() for a in kept]
                        np.random.seed(seed)
                        error = raises(other.fit, *give, max_its=its, initial_decomposition=start)
                        if error is None:
                            rec.check(fits.identical(model(plain.decomposition), model(other.decomposition)), 'a start that is given with another scheme changes the fit', **info)
                        else:
                            rec.note('refused')
                            rec.check(isinstance(error, (Warning, ValueError)), 'unexpected error', error=repr(error), **info)
                        rec.check(all(np.array_equal(a, b) for a, b in zip(kept, fits.arrays(model(start)))), 'a start that is not used was modified', **info)
                        rec.evaluated(info)
