"""C05: a Kruskal tensor means the same thing through every sequence of operations.

Every sequence of mutating operations up to a depth is executed on real objects; in every
state all reading operations are executed and the object is compared with a reference made
of plain lists of columns.
"""
import copy
import itertools
import os

import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor
from mc.history import call_histories
from mc.util import LAYOUTS, with_layout, fingerprint, kruskal_ref, raises, rng, scratch, same_bits, close

ID = 'C05'
LEVEL = 'model_checking'
RULE = ('all sequences of {normalise with / without weights, reset weights, assign weights, scale a factor in place, '
        'replace a factor matrix, store and load, take one component} up to depth 3 (thorough 4), from every initial tensor '
        '(orders 2-5, ranks 1-4, weights unit/generic/negative/with zero/integer/list, zero columns, equal columns, integer factor matrices, memory '
        'layouts); all reading operations in every state; all column counts {1,2,3}^order and numbers of weights 0..4 in the '
        'constructor; column norms 1 +- 10^-k for all k up to 12 and all sets of modes; all sequences of two calls on several tensors')
ASSUMPTIONS = ['column norms are zero or between 1e-3 and 1e3', 'equality of tensors up to relative rounding 1e-11']
OPS = ('normalise', 'normalise_keep_weights', 'reset', 'assign', 'scale', 'replace', 'reload', 'component')


def jobs(tier, seed):
    out = []
    shapes = [(2, 3), (3, 2, 2), (1, 4, 2), (2, 1, 1), (2, 2, 3, 2), (2, 1, 2, 2, 3), (3, 4, 5)]
    depth = 4 if tier == 'thorough' else 3
    for i, shape in enumerate(shapes):
        for rank in (1, 2, 3, 4):
            kinds = KINDS if tier == 'thorough' else [k for j, k in enumerate(KINDS) if (i + j + rank) % 2 == 0 or j < 1]
            for kind in kinds:
                layout = LAYOUTS[(i + rank + KINDS.index(kind)) % len(LAYOUTS)]
                out.append({'kind': 'history', 'shape': shape, 'rank': rank, 'data': kind,
                            'layout': 'C' if layout == 'readonly' else layout, 'depth': depth, 'seed': seed})
    out += [{'kind': 'constructor', 'order': n} for n in (2, 3, 4, 5)]
    out += [{'kind': 'nearly', 'shape': s, 'seed': seed} for s in shapes]
    out += [{'kind': 'calls', 'shape': s, 'seed': seed} for s in shapes[:5]]
    return out


KINDS = ('unit', 'generic', 'negative', 'zero weight', 'zero column', 'integer list', 'equal columns', 'no weights', 'near one', 'small', 'integer factors', 'one integer factor')


def initial(job):
    shape, rank, kind = job['shape'], job['rank'], job['data']
    r = rng('c05', job['seed'], tuple(shape), rank, kind)
    factors = [r.standard_normal((s, rank)) + (0.1 if s == 1 else 0) for s in shape]
    for f in factors:   # no tiny columns
        f += 0.3*np.sign(f)
    weights = 0.5 + 2*r.random_sample(rank)
    if kind == 'unit':
        weights = np.ones(rank)
    elif kind == 'negative':
        weights[::2] *= -1
    elif kind == 'zero weight':
        weights[-1] = 0
    elif kind == 'zero column':
        factors[rank % len(shape)][:, 0] = 0
    elif kind == 'integer list':
        weights = [i + 2 for i in range(rank)]
    elif kind == 'equal columns':
        for f in factors:
            f[:, :] = f[:, :1]
    elif kind == 'near one':
        weights = 1 + 1e-7*np.arange(1, rank + 1)
    elif kind == 'small':
        weights = 1e-9*weights
    elif kind == 'no weights':
        weights = None
    elif 'integer factor' in kind:
        for i, f in enumerate(factors):
            if kind == 'integer factors' or i == rank % len(factors):
                factors[i] = (3*f + np.sign(f)).astype((np.int64, np.int32, np.int16)[i % 3])
    factors = [with_layout(f, job['layout']) for f in factors]
    return KruskalTensor(factors, weights) if weights is not None else KruskalTensor(factors)


def run(job, rec):
    if job['kind'] in ('nearly', 'calls'):
        return {'nearly': nearly, 'calls': calls}[job['kind']](job, rec)
    if job['kind'] == 'constructor':
        return constructor(job['order'], rec)
    with scratch() as tmp:
        kt = initial(job)
        ref = {'factors': [np.array(f, dtype=float) for f in kt.factor_matrices],
               'weights': np.array(kt.weights, dtype=float)}
        X = rng('c05x', tuple(job['shape'])).standard_normal(job['shape'])
        other = KruskalTensor([rng('c05o', s, i, kt.rank).standard_normal((s, kt.rank)) for i, s in enumerate(job['shape'])])
        explore(kt, ref, (), job['depth'], rec, tmp, X, other)
        rec.sample({'initial': job, 'depth': job['depth']})


def ref_tensor(ref):
    return kruskal_ref(ref['factors'], ref['weights'])


def size(ref):
    """Magnitude of the terms, for rounding errors."""
    return sum(abs(w)*np.prod([np.linalg.norm(f[:, r]) for f in ref['factors']]) for r, w in enumerate(ref['weights']))


def observe(kt, ref, history, rec, tmp, X, other):
    info = dict(history=history, factors=ref['factors'], weights=ref['weights'])
    n, rank = len(ref['factors']), ref['factors'][0].shape[1]
    rec.check(kt.rank == rank and len(kt.weights) == rank, 'rank or number of weights is wrong', **info)
    rec.check(list(kt.shape) == [f.shape[0] for f in ref['factors']], 'wrong shape', **info)
    for i in range(n):
        rec.check(close(kt.factor_matrices[i], ref['factors'][i], 1e-11) and close(kt[i], ref['factors'][i], 1e-11),
                  f'factor matrix {i} is not what the operations make of it', got=kt.factor_matrices[i], **info)
    rec.check(close(kt.weights, ref['weights'], 1e-11), 'weights are not what the operations make of them', got=kt.weights, **info)
    before = fingerprint(*kt.factor_matrices, kt.weights)
    others = fingerprint(X, *other.factor_matrices, other.weights)
    bound = 1e-11*size(ref)
    T = ref_tensor(ref)

    def unchanged(op):
        rec.check(fingerprint(*kt.factor_matrices, kt.weights) == before, f'{op} changed the Kruskal tensor', **info)
        rec.check(fingerprint(X, *other.factor_matrices, other.weights) == others, f'{op} changed its argument', **info)
        rec.evaluated((before, op))

    got = kt.construct_tensor()
    rec.check(np.shape(got) == T.shape and np.max(np.abs(got - T)) <= bound, 'constructed tensor is not the weighted sum of outer products',
              got=got, expected=T, **info)
    unchanged('construct_tensor')
    parts = np.zeros(T.shape)
    for r in range(rank):
        single = kt.get_single_component_decomposition(r)
        rec.check(single.rank == 1, 'a single component decomposition has one component', **info)
        part = single.construct_tensor()
        expected = kruskal_ref([f[:, [r]] for f in ref['factors']], ref['weights'][[r]])
        rec.check(np.shape(part) == T.shape and np.max(np.abs(part - expected)) <= bound, f'component {r} is not its part of the tensor', got=part, **info)
        parts = parts + part
        for same in (r - rank, np.int64(r)):
            part = kt.get_single_component_decomposition(same).construct_tensor()
            rec.check(np.shape(part) == T.shape and np.max(np.abs(part - expected)) <= bound, f'component {same!r} is not its part of the tensor', got=part, **info)
    rec.check(np.max(np.abs(parts - T)) <= 2*bound, 'components do not sum to the whole', got=parts, **info)
    unchanged('get_single_component_decomposition')
    with np.errstate(all='ignore'):
        for penalty in (True, False):
            if other.rank == rank and rank <= 3:
                kt.factor_match_score(other, weight_penalty=penalty, fms_reduction='mean')
                other.factor_match_score(kt, weight_penalty=penalty)
        unchanged('factor_match_score')
        if other.rank == rank and rank <= 3:
            kt.seperate_mode_factor_match_score(other)
            unchanged('seperate_mode_factor_match_score')
        kt.degeneracy()
        unchanged('degeneracy')
        kt.get_sign_scores(X)
        kt.get_signs(X)
        unchanged('get_signs')
        if n == 3:
            if min(f.shape[0] for f in ref['factors']) >= rank and 0 < bound < np.inf and np.all(ref['weights'] != 0) \
                    and all(np.linalg.cond(f) < 1e8 for f in ref['factors']):
                kt.core_consistency(X)
                unchanged('core_consistency')
        else:
            rec.check(isinstance(raises(kt.core_consistency, X), ValueError), 'core consistency of a tensor that has not three modes', **info)
    kt.store(os.path.join(tmp, 'a.h5'))
    unchanged('store')
    again = kt.construct_tensor()
    rec.check(np.array_equal(got, again), 'constructing again gives another tensor', **info)
    return again


def explore(kt, ref, history, depth, rec, tmp, X, other):
    rec.state((ref['factors'], ref['weights']))
    tensor = observe(kt, ref, history, rec, tmp, X, other)
    if not depth:
        rec.trace()
        return
    for op in OPS:
        if op == 'component' and (ref['factors'][0].shape[1] < 2 or 'component' in history):
            continue
        k, m = copy.deepcopy(kt), copy.deepcopy(ref)
        k = apply(op, k, m, tensor, history + (op,), rec, tmp)
        rec.transition()
        explore(k, m, history + (op,), depth - 1, rec, tmp, X, other)


def apply(op, kt, ref, tensor, history, rec, tmp):
    """Performs the operation on the real tensor and on the reference."""
    info = dict(history=history, factors=ref['factors'], weights=ref['weights'])
    n = len(ref['factors'])
    if op in ('normalise', 'normalise_keep_weights'):
        update = op == 'normalise'
        bound = 1e-11*size(ref)
        if update:
            out = kt.normalize_components()
        else:
            out = kt.normalize_components(update_weights=False)
        rec.check(out is kt, 'normalize_components returns the tensor', **info)
        for i, f in enumerate(ref['factors']):
            norms = np.linalg.norm(f, axis=0)
            new = np.linalg.norm(kt.factor_matrices[i], axis=0)
            rec.check(np.all(np.abs(new[norms > 0] - 1) < 1e-10), f'columns of mode {i} do not have unit length', norms=new, **info)
            ref['factors'][i] = f/np.where(norms > 0, norms, 1)
            if update:
                ref['weights'] = ref['weights']*norms
        if update:
            got = kt.construct_tensor()
            rec.check(np.max(np.abs(got - tensor)) <= 2*bound, 'normalising changed the tensor', got=got, expected=tensor, **info)
    elif op == 'reset':
        kt.reset_weights()
        ref['weights'] = np.ones(len(ref['weights']))
        rec.check(np.array_equal(kt.weights, ref['weights']), 'weights are not one after a reset', got=kt.weights, **info)
    elif op == 'assign':
        ref['weights'] = np.array([(-1.)**r*(r + 1.5) for r in range(len(ref['weights']))])
        kt.weights = ref['weights'].copy()
    elif op == 'scale':
        i = len(history) % n
        kt.factor_matrices[i][...] *= -2.5
        ref['factors'][i] = ref['factors'][i]*-2.5
    elif op == 'replace':
        i = (len(history) + 1) % n
        f = rng('c05r', ref['factors'][i].shape).standard_normal(ref['factors'][i].shape)
        f += 0.3*np.sign(f)
        kt.factor_matrices[i] = f.copy()
        ref['factors'][i] = f
    elif op == 'reload':
        path = os.path.join(tmp, 'b.h5')
        kt.store(path)
        new = KruskalTensor.from_file(path)
        rec.check(all(same_bits(a, b) for a, b in zip(kt.factor_matrices, new.factor_matrices))
                  and same_bits(kt.weights, new.weights), 'loading gives another tensor', **info)
        kt = new
    elif op == 'component':
        r = len(ref['weights']) - 1
        # A part of its own, so that changing it is not meant to change the whole
        kt = copy.deepcopy(kt.get_single_component_decomposition(r))
        ref['factors'] = [f[:, [r]] for f in ref['factors']]
        ref['weights'] = ref['weights'][[r]]
    return kt


def constructor(order, rec):
    for ranks in itertools.product((1, 2, 3), repeat=order):
        factors = [np.ones((2 + i, r)) for i, r in enumerate(ranks)]
        valid = len(set(ranks)) == 1
        for weights in [None] + [w for n in range(5) for w in ([1.5]*n, np.arange(float(n)))]:
            ok = valid and (weights is None or len(weights) == ranks[0])
            e = raises(KruskalTensor, [f.copy() for f in factors], weights)
            rec.check(ok == (e is None), 'columns or weights do not match but are accepted' if not ok else f'rejected: {e!r}',
                      columns=ranks, weights=weights)
            rec.check(e is None or isinstance(e, ValueError), f'rejected with {e!r}', columns=ranks, weights=weights)
            rec.state((ranks, None if weights is None else [type(weights).__name__, len(weights)]))
            rec.transition()
    rec.sample({'constructor': order})


def nearly(job, rec):
    """Columns of nearly unit length are normalised like all others."""
    shape = tuple(job['shape'])
    for rank, k, sign in itertools.product((1, 2, 3), range(1, 13), (-1, 1)):
        for which in [*itertools.product((0, 1), repeat=len(shape))]:
            r = rng('c05n', job['seed'], shape, rank, k, which)
            factors = []
            for s, close_to_one in zip(shape, which):
                f = r.standard_normal((s, rank))
                f += 0.3*np.sign(f)
                norms = 1 + sign*10.0**-k*np.arange(1, rank + 1) if close_to_one else 1 + np.arange(1, rank + 1)
                factors.append(f/np.linalg.norm(f, axis=0)*norms)
            weights = 1 + sign*10.0**-k*np.arange(rank)
            expected = kruskal_ref(factors, weights)
            for update in (True, False):
                kt = KruskalTensor([f.copy() for f in factors], weights.copy())
                kt.normalize_components(**({} if update else {'update_weights': False}))
                info = dict(factors=factors, weights=weights, update=update)
                for i, f in enumerate(kt.factor_matrices):
                    norms = np.linalg.norm(f, axis=0)
                    rec.check(np.all(np.abs(norms - 1) < 1e-13), f'columns of mode {i} do not have unit length', norms=norms, **info)
                if update:
                    rec.check(np.max(np.abs(kt.construct_tensor() - expected)) <= 1e-13*np.max(np.abs(expected)), 'normalising changed the tensor', **info)
                    rec.check(np.max(np.abs(kruskal_ref(kt.factor_matrices, kt.weights) - expected)) <= 1e-13*np.max(np.abs(expected)), 'factors and weights of the normalised tensor', **info)
                else:
                    rec.check(np.array_equal(kt.weights, weights), 'the weights were changed', **info)
            rec.evaluated((shape, rank, k, sign, which))
    rec.sample({'shape': shape})


def calls(job, rec):
    """All sequences of two calls, also on different objects: no call depends on, or changes, another one."""
    shape = tuple(job['shape'])
    for rank in (1, 2):
        r = rng('c05c', job['seed'], shape, rank)
        draw = lambda *s: r.randint(-9, 10, size=s).astype(float)
        variants = [([draw(s, rank) for s in shape], draw(rank)) for _ in range(2)]
        make = lambda f, w: KruskalTensor(f, w)
        families = [('construct_tensor', lambda f, w: make(f, w).construct_tensor(), [(v, kruskal_ref(*v)) for v in variants]),
                    ('factor_matrices', lambda f, w: [m.copy() for m in make(f, w).factor_matrices], [(v, v[0]) for v in variants]),
                    ('random_init', lambda f, w: np.array(KruskalTensor.random_init(shape, rank).construct_tensor().shape), [(variants[0], np.array(shape))])]
        for c in range(rank):
            families.append((f'component {c}', lambda f, w, c=c: make(f, w).get_single_component_decomposition(c).construct_tensor(),
                             [(v, kruskal_ref([m[:, [c]] for m in v[0]], v[1][[c]])) for v in variants]))
        call_histories(rec, families)
    rec.sample({'shape': shape})
