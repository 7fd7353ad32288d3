"""C17: invalid starting points are refused, failed loads change nothing."""
import itertools
import os

import h5py
import numpy as np
from tenkit.decomposition import CP_ALS, EvolvingTensor, KruskalTensor, Parafac2_ALS, Parafac2Tensor
from mc import models
from mc.fits import Recorder, distance, identical, model, snapshot
from mc.util import rng, same_bits, scratch

ID = 'C17'
LEVEL = 'model_checking'
RULE = ('starting points: every deviation {-1, 0, +1} of every mode length and of the rank, every omitted and added mode (CP) or slice (PARAFAC2), every permutation of the '
        'mode lengths and every other decomposition type, for orders 1..4 (thorough: more shapes), given as precomputed, from_checkpoint, file name, and to '
        'load_checkpoint.  Failed loads: every kind of failing load at every point of every history of up to 3 (thorough 4) of {continue, load, '
        'load a chosen iteration, refit}, for 16 configurations; the decomposer is compared bit for bit with a twin on which no load was tried, then and '
        'after going on')
ASSUMPTIONS = ['failing loads are calls of load_checkpoint (a refit resets the iteration counter before it loads)']

CP_SHAPES = [((3,), 1), ((3, 4), 2), ((4, 4), 2), ((2, 3, 4), 2), ((3, 3, 3), 2), ((3, 2, 3), 1), ((2, 2, 3, 2), 2)]
CP_MORE = [((2, 1), 1), ((1, 2, 2), 1), ((4, 3, 2), 3), ((5, 2, 5), 2), ((2, 2, 2, 2), 3), ((2, 1, 2, 3), 1), ((2, 2, 2, 2, 2), 2)]
PF2_SHAPES = [(3, (3, 3, 3), 2), (4, (3, 4, 5), 2), (3, (2, 2), 1), (2, (3, 2, 3, 2), 2), (3, (1, 2, 1), 1), (4, (1, 3), 1)]
PF2_MORE = [(3, (4, 3), 3), (2, (5, 3, 4), 2), (5, (3, 3, 3, 3), 2)]
WAYS = ('precomputed', 'from_checkpoint', 'file', 'load')


def jobs(tier, seed):
    more = tier == 'thorough'
    out = [{'kind': 'cp starts', 'shape': s, 'rank': r, 'way': w, 'seed': seed} for s, r in CP_SHAPES[1:] + (CP_MORE if more else []) for w in WAYS]
    out += [{'kind': 'pf2 starts', 'I': i, 'J': j, 'rank': r, 'way': w, 'seed': seed} for i, j, r in PF2_SHAPES + (PF2_MORE if more else []) for w in WAYS]
    depth = 4 if more else 3
    out += [{'kind': 'failed loads', 'config': i, 'depth': depth, 'seed': seed} for i in range(len(models.CONFIGS))]
    return out


def run(job, rec):
    with scratch() as tmp:
        {'cp starts': cp_starts, 'pf2 starts': pf2_starts, 'failed loads': failed_loads}[job['kind']](job, rec, tmp)


def kruskal(shape, rank, key, weights=True):
    r = rng('kruskal', shape, rank, key)
    return KruskalTensor([r.standard_normal((s, rank)) for s in shape], r.random_sample(rank) + 0.5 if weights else None)


def parafac2(I, J, rank, key, K=None):
    r = rng('parafac2', I, J, rank, key)
    P = [np.linalg.qr(r.standard_normal((max(j, rank), rank)))[0][:j] for j in J]
    return Parafac2Tensor(r.standard_normal((I, rank)), r.standard_normal((rank, rank)), r.random_sample((len(J) if K is None else K, rank)) + 0.3, P)


def checkpoint_file(path, decomposition, it=3):
    """A checkpoint file as the decomposers write it."""
    if os.path.exists(path):
        os.remove(path)
    with h5py.File(path, 'w') as h5:
        decomposition.store_in_hdf5_group(h5.create_group(f'checkpoint_{it:05d}'))
        h5.attrs['checkpoint_its'] = [it]
        h5.attrs['final_iteration'] = it
        h5.attrs['decomposition_type'] = 'CP_ALS' if isinstance(decomposition, KruskalTensor) else 'Parafac2_ALS'


def give_start(make, X, start, way, tmp, its=1):
    """Starts with the decomposition.  Returns (error, decomposer, recorder)."""
    log = Recorder(metrics=False)
    path = os.path.join(tmp, 'start.h5')
    if way != 'precomputed':
        checkpoint_file(path, start)
    begin = 0 if way == 'precomputed' else 4
    try:
        if way == 'precomputed':
            dec = make(init='precomputed', loggers=[log])
            dec.fit(X, max_its=begin + its, initial_decomposition=start)
        elif way == 'from_checkpoint':
            dec = make(init='from_checkpoint', loggers=[log])
            dec.fit(X, max_its=begin + its, initial_decomposition=path)
        elif way == 'file':
            dec = make(init=path, loggers=[log])
            dec.fit(X, max_its=begin + its)
        else:
            dec = make(init='random', loggers=[log])
            dec.fit(X, max_its=0)
            dec.load_checkpoint(path)
            if its:
                dec.continue_fit(max_its=begin + its)
    except Exception as e:
        return e, None, log
    return None, dec, log


def expect(rec, job, make, X, start, accept, tmp, label, like=None):
    if like is not None:
        _, same_start, _ = give_start(make, X, like, job['way'], tmp)
    copies = [np.array(a) for a in (start.factor_matrices if isinstance(start, KruskalTensor) else [start.A, start.C, *start.B])]
    data = [np.array(x) for x in X]
    error, dec, log = give_start(make, X, start, job['way'], tmp)
    info = dict(way=job['way'], rank=job['rank'], shape=job.get('shape', [job.get('I'), job.get('J')]), start=label)
    if accept:
        rec.check(error is None, f'a matching starting point is refused: {error!r}', **info)
        begin = 0 if job['way'] == 'precomputed' else 4
        if like is not None:
            rec.check(error is None and same_start is not None and distance(model(dec.decomposition), model(same_start.decomposition)) <= 1e-9,
                      'a start of whole numbers gives another fit than the same numbers of floating point type', **info)
        rec.check([s['it'] for s in log.states] == [begin], 'iterations after a matching start', got=[s['it'] for s in log.states], **info)
    else:
        rec.check(error is not None, 'a starting point that does not match is accepted', **info)
        rec.check(give_start(make, X, start, job['way'], tmp, its=0)[0] is not None, 'a starting point that does not match is accepted by a fit of no iterations', **info)
        rec.check(not log.states, 'an iteration was run from a starting point that does not match', error=repr(error), **info)
        after = start.factor_matrices if isinstance(start, KruskalTensor) else [start.A, start.C, *start.B]
        rec.check(all(same_bits(a, b) for a, b in zip(copies, after)), 'a refused starting point was modified', **info)
    rec.check(all(same_bits(a, np.asarray(b)) for a, b in zip(data, X)), 'the data were modified', **info)
    rec.state((job['way'], info['shape'], job['rank'], label))
    rec.transition()
    rec.trace()
    rec.note('accepted' if accept else 'refused')


def cp_starts(job, rec, tmp):
    shape, rank = tuple(job['shape']), job['rank']
    X = rng('X', shape, job['seed']).standard_normal(shape)

    def make(**kwargs):
        return CP_ALS(rank, convergence_tol=-1, rel_loss_tol=-1, **kwargs)

    candidates = {}
    for deltas in itertools.product((-1, 0, 1), repeat=len(shape)):
        for d in (-1, 0, 1):
            candidates[tuple(s + e for s, e in zip(shape, deltas)), rank + d] = True
    for other in [tuple(s for i, s in enumerate(shape) if i not in drop) for n in range(1, len(shape)) for drop in itertools.combinations(range(len(shape)), n)]:
        candidates[other, rank] = True
    for i in range(len(shape) + 1):
        for s in {1, 2, *shape}:
            candidates[shape[:i] + (s,) + shape[i:], rank] = True
    for p in itertools.permutations(shape):
        candidates[p, rank] = True
    candidates[shape + shape, rank] = True
    for s, r in candidates:
        if min(s) < 1 or r < 1:
            continue
        for weights in (True, False) if (s, r) == (shape, rank) else (True,):
            expect(rec, job, make, X, kruskal(s, r, job['seed'], weights), s == shape and r == rank, tmp, [s, r])
    # whole numbers: accepted, and taken as the numbers they are
    start = [rng('whole', shape, mode, job['seed']).randint(1, 6, size=(s, rank)) for mode, s in enumerate(shape)]
    for kinds in itertools.product((np.int64, np.uint8, float), repeat=len(shape)):
        expect(rec, job, make, X, KruskalTensor([f.astype(k) for f, k in zip(start, kinds)], [2]*rank), True, tmp, ['integers', kinds],
               like=KruskalTensor([f.astype(float) for f in start], np.full(rank, 2.)))
    # one factor with another number of columns (broken by hand)
    for mode in range(len(shape)):
        start = kruskal(shape, rank, job['seed'])
        if job['way'] == 'precomputed':
            start.factor_matrices[mode] = np.ones((shape[mode], rank + 1))
            expect(rec, job, make, X, start, False, tmp, ['columns', mode])
    if len(shape) == 3 and job['way'] != 'precomputed':
        I, J, K = shape
        if rank <= min(I, J):
            expect(rec, job, make, X, parafac2(I, (J,)*K, rank, job['seed']), False, tmp, 'PARAFAC2')
    rec.sample({k: job[k] for k in ('way', 'shape', 'rank')})


def pf2_starts(job, rec, tmp):
    I, J, rank = job['I'], tuple(job['J']), job['rank']
    r = rng('X', I, J, job['seed'])
    X = [r.standard_normal((I, j)) for j in J]
    if len(set(J)) == 1:
        forms = [X, np.stack(X, axis=2)]
    else:
        forms = [X]

    def make(**kwargs):
        return Parafac2_ALS(rank, convergence_tol=-1, print_frequency=-1, **kwargs)

    candidates = {}
    for deltas in itertools.product((-1, 0, 1), repeat=len(J)):
        for e in (-1, 0, 1):
            for d in (-1, 0, 1):
                candidates[I + e, tuple(j + x for j, x in zip(J, deltas)), rank + d] = True
    for k in range(len(J)):
        candidates[I, J[:k] + J[k + 1:], rank] = True
        for j in {*J, J[k] + 1}:
            candidates[I, J[:k] + (j,) + J[k:], rank] = True
    candidates[I, J + J[-1:], rank] = True
    candidates[I, J + J, rank] = True
    for p in itertools.permutations(J):
        candidates[I, p, rank] = True
    for i, j, q in candidates:
        if min(i, q, len(j)) < 1 or min(j) < 1:
            continue
        accept = (i, j, q) == (I, J, rank)
        for form in forms if accept or i == I and q == rank else forms[:1]:
            # (a start with slices shorter than the rank cannot have orthonormal projections, but must be refused or accepted all the same)
            expect(rec, job, make, form, parafac2(i, j, q, job['seed']), accept, tmp, [i, j, q])
    # C with another number of rows than there are slices
    for K in (len(J) - 1, len(J) + 1):
        if K >= 1:
            try:
                start = parafac2(I, J, rank, job['seed'], K=K)
            except Exception:
                continue
            expect(rec, job, make, X, start, False, tmp, ['C', K])
    if min(J) >= rank:
        whole = [rng('whole', s, job['seed']).randint(1, 6, size=(s[0], rank)) for s in ((I, 0), (rank, 1), (len(J), 2))]
        P = [np.eye(j, rank)[::-1] for j in J]
        for kinds in itertools.product((np.int64, float), repeat=4):
            expect(rec, job, make, X, Parafac2Tensor(*[f.astype(k) for f, k in zip(whole, kinds)], [p.astype(kinds[3]) for p in P]), True, tmp, ['integers', kinds],
                   like=Parafac2Tensor(*[f.astype(float) for f in whole], [p.copy() for p in P]))
    if job['way'] != 'precomputed' and len(set(J)) == 1:
        expect(rec, job, make, X, kruskal((I, J[0], len(J)), rank, job['seed']), False, tmp, 'Kruskal')
    rec.sample({k: job[k] for k in ('way', 'I', 'J', 'rank')})


# ---------------------------------------------------------------- failing loads

def bad_files(config, X, tmp, seed):
    """(name, path, load_it) of loads that must fail."""
    out = [('missing file', os.path.join(tmp, 'missing.h5'), None), ('missing file', os.path.join(tmp, 'missing.h5'), 0), ('directory', tmp, None)]

    def path(name):
        return os.path.join(tmp, name + '.h5')

    with open(path('text'), 'w') as f:
        f.write('This is not a checkpoint file')
    with open(path('nothing'), 'w'):
        pass
    with h5py.File(path('empty'), 'w'):
        pass
    out += [(n, path(n), it) for n in ('text', 'nothing', 'empty') for it in (None, 0)]
    cp = config['model'] == 'cp'
    if cp:
        shape, rank = tuple(config['shape']), config['rank']
        good = kruskal(shape, rank, seed)
        wrong = {'other type': parafac2(4, (3, 3, 3), 2, seed), 'rank': kruskal(shape, rank + 1, seed), 'smaller rank': kruskal(shape, rank - 1, seed) if rank > 1 else None,
                 'fewer modes': kruskal(shape[:-1], rank, seed), 'more modes': kruskal(shape + (2,), rank, seed)}
        for i in range(len(shape)):
            wrong[f'mode {i}'] = kruskal(tuple(s + (j == i) for j, s in enumerate(shape)), rank, seed)
    else:
        I, J, rank = config['I'], tuple(config['J']), config['rank']
        good = parafac2(I, J, rank, seed)
        wrong = {'other type': kruskal((I, J[0], len(J)), rank, seed), 'rank': parafac2(I, J, rank + 1, seed), 'A': parafac2(I + 1, J, rank, seed),
                 'fewer slices': parafac2(I, J[:-1], rank, seed), 'more slices': parafac2(I, J + J[:1], rank, seed)}
        for k in range(len(J)):
            wrong[f'slice {k}'] = parafac2(I, tuple(j + (i == k) for i, j in enumerate(J)), rank, seed)
    wrong['evolving'] = EvolvingTensor(np.ones((3, 2)), [np.ones((3, 2))]*3, np.ones((3, 2)))
    for name, decomposition in wrong.items():
        if decomposition is not None:
            checkpoint_file(path(name), decomposition)
            out += [(name, path(name), None), (name, path(name), 3)]
    checkpoint_file(path('good'), good)
    out += [('missing iteration', path('good'), it) for it in (0, 2, 4, -1, 30)]
    # a good checkpoint and a mismatching later one
    checkpoint_file(path('mixed'), good, it=1)
    with h5py.File(path('mixed'), 'a') as h5:
        wrong['rank'].store_in_hdf5_group(h5.create_group('checkpoint_00002'))
        h5.attrs['checkpoint_its'] = [1, 2]
        h5.attrs['final_iteration'] = 2
    out += [('mixed', path('mixed'), None), ('mixed', path('mixed'), 2)]
    # an incomplete checkpoint: each of its members is missing
    with h5py.File(path('good'), 'r') as h5:
        members = list(h5['checkpoint_00003'])
    for m in members:
        checkpoint_file(path('partial ' + m), good)
        with h5py.File(path('partial ' + m), 'a') as h5:
            del h5['checkpoint_00003'][m]
        out.append((f'without {m}', path('partial ' + m), None))
    checkpoint_file(path('group'), good)
    with h5py.File(path('group'), 'a') as h5:
        del h5['checkpoint_00003']
        h5.create_group('checkpoint_00003')
    out.append(('empty group', path('group'), None))
    return out, path('good')


def failed_loads(job, rec, tmp):
    config = models.CONFIGS[job['config']]
    X = models.data(config, job['seed'])
    give = models.give(config, X)
    bad, good = bad_files(config, X, tmp, job['seed'])
    # a file with several iterations
    several = os.path.join(tmp, 'several.h5')
    np.random.seed(11)
    models.make(config, checkpoint_path=several, checkpoint_frequency=1).fit(give, max_its=3)

    def start():
        np.random.seed(4)
        log = Recorder(metrics=False)
        dec = models.make(config, loggers=[log])
        dec.fit(give, max_its=0)
        return dec, log

    def step(dec, op):
        if op == 'continue':
            dec.continue_fit(max_its=dec.current_iteration + 2)
        elif op == 'load':
            dec.load_checkpoint(good)
        elif op == 'load 1':
            dec.load_checkpoint(several, load_it=1)
        elif op == 'refit':
            np.random.seed(6)
            dec.fit(give, max_its=1)

    ops = ('continue', 'load', 'load 1', 'refit')
    histories = [h for n in range(job['depth'] + 1) for h in itertools.product(ops, repeat=n)]
    for number, history in enumerate(histories):
        # all kinds for short histories, a rotating third of them for the others
        kinds = bad if len(history) < job['depth'] else bad[number % 3::3]
        twin, twin_log = start()
        for op in history:
            step(twin, op)
        before = snapshot(twin)
        twin.continue_fit(max_its=twin.current_iteration + 2)
        end = snapshot(twin)
        dec, log = start()
        for op in history:
            step(dec, op)
        for name, path, load_it in kinds:
            info = dict(model=config['name'], history=history, load=name, load_it=load_it)
            failing(rec, dec, path, load_it, info)
            same(rec, snapshot(dec), before, 'a failed load changed the decomposer', exact=True, **info)
            rec.state((config['name'], history, name, load_it))
            rec.transition()
        dec.continue_fit(max_its=dec.current_iteration + 2)
        same(rec, snapshot(dec), end, 'after failed loads the fit goes on differently', model=config['name'], history=history)
        compare_logs(rec, log, twin_log, model=config['name'], history=history)
        rec.trace()
        # each kind before every step
        if 1 <= len(history) < job['depth']:
            for name, path, load_it in bad:
                dec, log = start()
                for op in history:
                    failing(rec, dec, path, load_it, dict(model=config['name'], history=history, load=name))
                    step(dec, op)
                failing(rec, dec, path, load_it, dict(model=config['name'], history=history, load=name))
                dec.continue_fit(max_its=dec.current_iteration + 2)
                info = dict(model=config['name'], history=history, load=name, load_it=load_it)
                same(rec, snapshot(dec), end, 'with failed loads the fit goes differently', **info)
                compare_logs(rec, log, twin_log, **info)
                rec.transition(len(history) + 2)
                rec.trace()
    rec.sample({'config': config['name'], 'histories': len(histories), 'kinds': [b[0] for b in bad]})


def failing(rec, dec, path, load_it, info):
    try:
        dec.load_checkpoint(path, load_it=load_it) if load_it is not None else dec.load_checkpoint(path)
    except Exception:
        return
    rec.check(False, 'a load that must fail is accepted', **info)


def same(rec, a, b, message, exact=False, **info):
    rec.check(a['it'] == b['it'], message + ' (iteration counter)', got=a['it'], expected=b['it'], **info)
    if exact:
        rec.check(identical(a, b), message, **info)
    else:
        rec.check(distance(a, b) <= 1e-9, message, distance=distance(a, b), **info)
    for name in ('SSE', 'MSE', 'RMSE', 'explained_variance', 'loss'):
        rec.check(abs(a[name] - b[name]) <= 1e-9*(1 + abs(b[name])), f'{message} ({name})', got=a[name], expected=b[name], **info)


def compare_logs(rec, log, other, **info):
    rec.check([s['it'] for s in log.states] == [s['it'] for s in other.states], 'logged iterations with failed loads', **info)
    rec.check(all(distance(a, b) <= 1e-9 for a, b in zip(log.states, other.states)), 'logged states with failed loads', **info)
