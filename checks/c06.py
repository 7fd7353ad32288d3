"""C06: evolving and PARAFAC2 tensors represent exactly what they define.

All entries are small integers, so every product and sum is exact and the comparison with
the definition is exact as well.
"""
import itertools
import warnings

import numpy as np
from tenkit.decomposition.decompositions import EvolvingTensor, KruskalTensor, Parafac2Tensor, ProjectedFactor
from mc.history import call_histories
from mc.util import LAYOUTS, with_layout, fingerprint, kruskal_ref, raises, rng, exactly, close

ID = 'C06'
LEVEL = 'exploration'
RULE = ('all slice length patterns {1,2,3}^K for K = 1..3 (thorough {1,2,3,4}^K, K <= 4), I = 1..3, ranks 1..3, integer entries, x '
        '{evolving tensor from a list, from a three-dimensional array, PARAFAC2} x {warning on, off} x memory layouts (and integer types); each '
        'object is observed, then every array is changed in place and the object observed again; Kruskal tensors of all '
        'shapes {1,2,3}^3 and ranks 1..3 with unit, generic, negative and zero weights converted. Non-trivial: all entries non-zero.')
ASSUMPTIONS = ['slices have at least one column and one row']


def jobs(tier, seed):
    out = []
    values = (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3)
    for K in range(1, 5 if tier == 'thorough' else 4):
        for I, R in itertools.product((1, 2, 3), repeat=2):
            out.append({'kind': 'tensors', 'K': K, 'I': I, 'R': R, 'values': values, 'seed': seed})
    out += [{'kind': 'convert', 'I': I, 'seed': seed} for I in (1, 2, 3)]
    out.append({'kind': 'many', 'seed': seed})
    out += [{'kind': 'calls', 'J': J, 'seed': seed} for J in ([2, 2], [3, 3], [1, 2], [2, 3, 1], [2, 2, 2], [3, 2, 4])]
    return out


def ints(*key, shape):
    x = rng('c06', *key).randint(1, 8, size=shape).astype(float)
    return x*np.where(rng('c06s', *key).randint(0, 3, size=shape) == 0, -1, 1)


def slices_ref(A, Bs, C):
    out = []
    for k, B in enumerate(Bs):
        X = np.zeros((A.shape[0], B.shape[0]))
        for i in range(A.shape[0]):
            for j in range(B.shape[0]):
                X[i, j] = sum(A[i, r]*C[k, r]*B[j, r] for r in range(A.shape[1]))
        out.append(X)
    return out


def check_evolving(t, A, Bs, C, warn, rec, **info):
    """t is the tensor with the given factors, compared through every reading operation."""
    I, K, R = A.shape[0], len(Bs), A.shape[1]
    J = [B.shape[0] for B in Bs]
    ref = slices_ref(A, Bs, C)
    info = dict(A=A, B=list(Bs), C=C, warning=warn, type=type(t).__name__, **info)
    rec.check(t.rank == R, 'rank', **info)
    rec.check(exactly(t.A, A) and exactly(t[0], A) and exactly(t.C, C) and exactly(t[2], C), 'A and C', **info)
    rec.check(len(t.B) == K and len(t[1]) == K, 'number of evolving factors', **info)
    for k in range(K):
        rec.check(exactly(t.B[k], Bs[k]) and exactly(t[1][k], Bs[k]), f'B_{k}', got=t.B[k], **info)
        got = t.construct_slice(k)
        rec.check(exactly(got, ref[k]), f'slice {k} is not A diag(c_k) B_k^T', got=got, expected=ref[k], **info)
    rec.check(isinstance(raises(t.__getitem__, 3), IndexError), 'there is no fourth factor', **info)
    rec.check(all(exactly(a, b) for a, b in zip(list(t.B), Bs)) and len(list(t.B)) == K, 'iterating over B', **info)
    rec.check(exactly(t.B_unfolded, np.concatenate(Bs, axis=0)), 'B_unfolded', **info)
    fms = t.factor_matrices
    rec.check(len(fms) == 3 and exactly(fms[0], A) and exactly(fms[2], C) and all(exactly(a, b) for a, b in zip(list(fms[1]), Bs)),
              'factor_matrices', **info)
    rec.check(list(t.shape) == [I, max(J), K], 'shape', got=t.shape, **info)
    rec.check([tuple(s) for s in t.slice_shapes] == [(I, j) for j in J], 'slice_shapes', got=t.slice_shapes, **info)
    rec.check(t.num_elements == I*sum(J), 'num_elements', got=t.num_elements, **info)
    rec.check(bool(t.all_same_size) == (len(set(J)) == 1), 'all_same_size', **info)
    slices = t.construct_slices()
    rec.check(len(slices) == K and all(exactly(a, b) for a, b in zip(slices, ref)), 'construct_slices', got=slices, **info)
    padded = np.zeros((I, max(J), K))
    for k, X in enumerate(ref):
        for i, j in np.ndindex(*X.shape):
            padded[i, j, k] = X[i, j]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        try:
            tensor = t.construct_tensor()
        except Warning:
            tensor = None
    irregular = len(set(J)) > 1
    if warn and irregular:
        rec.check(tensor is None or any(not issubclass(w.category, DeprecationWarning) for w in caught),
                  'slices of different lengths are padded silently', **info)
    else:
        rec.check(tensor is not None, 'construct_tensor raises although nothing has to be warned about', **info)
    rec.check(tensor is None or exactly(tensor, padded), 'constructed tensor is not made of the slices', got=tensor, expected=padded, **info)


def single_components(t, A, Bs, C, rec, **info):
    ref = slices_ref(A, Bs, C)
    total = [np.zeros(X.shape) for X in ref]
    for r in range(A.shape[1]):
        single = t.get_single_component_decomposition(r)
        part = slices_ref(A[:, [r]], [B[:, [r]] for B in Bs], C[:, [r]])
        got = single.construct_slices()
        rec.check(single.rank == 1 and len(got) == len(part) and all(exactly(a, b) for a, b in zip(got, part)),
                  f'component {r}', got=got, A=A, B=Bs, C=C, **info)
        for s, X in zip(total, got):
            s += X
    rec.check(all(exactly(a, b) for a, b in zip(total, ref)), 'components do not sum to the whole', got=total, expected=ref, **info)


def run(job, rec):
    {'tensors': tensors, 'convert': convert, 'many': many, 'calls': calls}[job['kind']](job, rec)


def tensors(job, rec):
    K, I, R, seed = job['K'], job['I'], job['R'], job['seed']
    for n, J in enumerate(itertools.product(job['values'], repeat=K)):
        for warn in (True, False):
            for layout in ('C', 'F', 'strided', 'negative', 'i8', 'i4'):
                if layout != 'C' and (n + warn) % 3:
                    continue
                key = (seed, K, I, R, J)
                A, C = ints('A', key, shape=(I, R)), ints('C', key, shape=(K, R))
                Bs = [ints('B', k, key, shape=(j, R)) for k, j in enumerate(J)]
                evolving(A, Bs, C, warn, layout, rec)
                P = [ints('P', k, key, shape=(j, R)) for k, j in enumerate(J)]
                parafac2(A, P, ints('F', key, shape=(R, R)), C, warn, layout, rec)
                rec.evaluated((A, Bs, C, warn, layout))
    # orthonormal projections, as in a real PARAFAC2 tensor
    for J in itertools.product([v + R - 1 for v in (1, 2, 3)], repeat=K):
        key = (seed, K, I, R, J)
        P = []
        for k, j in enumerate(J):
            p = np.zeros((j, R))
            for r, (row, sign) in enumerate(zip(rng('c06p', k, key).permutation(j)[:R], (1, -1, 1, -1))):
                p[row, r] = sign
            P.append(p)
        parafac2(ints('A', key, shape=(I, R)), P, ints('F', key, shape=(R, R)), ints('C', key, shape=(K, R)), True, 'C', rec)
        rec.evaluated((key, 'orthonormal'))
    rec.sample({'K': K, 'I': I, 'R': R, 'patterns': len(job['values'])**K})


def evolving(A, Bs, C, warn, layout, rec):
    make = lambda x: x.astype(layout) if layout[0] == 'i' else with_layout(x, layout)
    objects = [('list', EvolvingTensor(make(A), [make(B) for B in Bs], make(C), warning=warn))]
    if len({len(B) for B in Bs}) == 1:
        objects.append(('array', EvolvingTensor(make(A), make(np.array(Bs)), make(C), warning=warn)))
    if warn:
        objects.append(('factor matrices', EvolvingTensor.from_factor_matrices([make(A), [make(B) for B in Bs], make(C)])))
    for how, t in objects:
        check_evolving(t, A, Bs, C, warn, rec, how=how, layout=layout)
        before = fingerprint(t.A, *t.B, t.C)
        check_evolving(t, A, Bs, C, warn, rec, how=how, again=True)
        rec.check(fingerprint(t.A, *t.B, t.C) == before, 'reading changed the tensor', A=A, B=Bs, C=C)
        t.A[...] *= 2
        for B in t.B:
            B[...] += 3
        t.C[...] *= -1
        check_evolving(t, 2*A, [B + 3 for B in Bs], -C, warn, rec, how=how, after='changing the factors in place')


def parafac2(A, P, F, C, warn, layout, rec):
    make = lambda x: x.astype(layout) if layout[0] == 'i' else with_layout(x, layout)
    for container in (list, tuple):
        t = Parafac2Tensor(make(A), make(F), make(C), container(make(p) for p in P), warning=warn)
        for step in range(2):
            Bs = [np.array([[sum(p[i, s]*F[s, r] for s in range(F.shape[0])) for r in range(F.shape[1])] for i in range(p.shape[0])]) for p in P]
            rec.check(exactly(t.blueprint_B, F) and len(t.projection_matrices) == len(P)
                      and all(exactly(a, b) for a, b in zip(t.projection_matrices, P)), 'blueprint or projections', P=P, F=F)
            check_evolving(t, A, Bs, C, warn, rec, step=step, layout=layout)
            single_components(t, A, Bs, C, rec, step=step)
            for k in range(len(P)):
                for r in range(F.shape[1]):
                    rec.check(exactly(t.B[k, :, r], Bs[k][:, r]), 'column of an evolving factor', k=k, r=r, P=P, F=F)
                for i in range(P[k].shape[0]):
                    rec.check(exactly(t.B[k, i], Bs[k][i]), 'row of an evolving factor', k=k, i=i, P=P, F=F)
            rec.check(all(exactly(a, b) for a, b in zip(t.B.as_list(), Bs)) and exactly(t.B[-1], Bs[-1]), 'list of evolving factors', P=P, F=F)
            rec.check(exactly(t.D, np.array([np.diag(C[:, r]) for r in range(C.shape[1])])), 'diagonal matrices', C=C)
            # everything is changed in place, as the fits do
            t.A[...] += 1
            t.blueprint_B[...] *= -2
            t.C[...] += 2
            for p in t.projection_matrices:
                p[...] *= 3
            A, F, C, P = A + 1, -2*F, C + 2, [3*p for p in P]
        pf = ProjectedFactor(F, P)
        rec.check(len(pf) == len(P) and all(exactly(pf[k], p @ F) for k, p in enumerate(P)), 'projected factor', P=P, F=F)


def convert(job, rec):
    I, seed = job['I'], job['seed']
    for J, K, R in itertools.product((1, 2, 3), repeat=3):
        for name, weights in (('none', None), ('unit', np.ones(R)), ('generic', np.arange(2., 2 + R)), ('negative', -np.arange(1., 1 + R)),
                              ('zero', np.arange(0., R)), ('list', [float(3 - r) for r in range(R)]),
                              *((f'1 + 2^-{p}', 1 + 2.0**-p*np.arange(1, 1 + R)) for p in (8, 12, 20, 30)), ('small', 2.0**-40*np.arange(1, 1 + R)),
                              ('large', 2.0**40*np.arange(1, 1 + R))):
            for layout in LAYOUTS if '^' not in name and name not in ('small', 'large') else LAYOUTS[:1]:
                key = (seed, I, J, K, R)
                fms = [with_layout(ints(m, key, shape=(s, R)), layout) for m, s in enumerate((I, J, K))]
                kt = KruskalTensor(list(fms), None if weights is None else np.array(weights) if name != 'list' else list(weights))
                before = fingerprint(*kt.factor_matrices, kt.weights)
                expected = kruskal_ref(fms, kt.weights)
                for allow in (False, True):
                    et = EvolvingTensor.from_kruskaltensor(kt, allow_same_class=allow)
                    rec.check(type(et) is EvolvingTensor and et.rank == R and list(et.shape) == [I, J, K], 'type, rank or shape', factors=fms)
                    got = et.construct_tensor()
                    rec.check(exactly(got, expected), 'the evolving tensor represents other data', weights=name, factors=fms, got=got, expected=expected)
                    rec.check(exactly(kt.construct_tensor(), expected), 'the Kruskal tensor represents other data', factors=fms)
                    rec.check(fingerprint(*kt.factor_matrices, kt.weights) == before, 'converting changed the Kruskal tensor', factors=fms)
                    rec.check(all(exactly(et.construct_slice(k), expected[:, :, k]) for k in range(K)), 'slices of the converted tensor', factors=fms)
                    rec.check(EvolvingTensor.from_kruskaltensor(et, allow_same_class=True) is et, 'an evolving tensor is kept')
                    rec.evaluated((fms, name, layout, allow))
                if layout == 'readonly':
                    continue
                kt.normalize_components()
                et = EvolvingTensor.from_kruskaltensor(kt)
                rec.check(close(et.construct_tensor(), expected, 1e-12, 1e-12), 'converting the normalised tensor', factors=fms, weights=name)
                rec.evaluated((fms, name, layout, 'normalised'))
    for order in (2, 4, 5):
        kt = KruskalTensor([np.ones((2, 2)) for _ in range(order)])
        rec.check(isinstance(raises(EvolvingTensor.from_kruskaltensor, kt), ValueError), 'only three modes can be converted', order=order)
        rec.evaluated(order)
    rec.sample({'I': I})


def many(job, rec):
    """More slices, columns and components than a single digit."""
    for K, I, R, J in ((12, 2, 2, [1 + k % 5 for k in range(12)]), (101, 1, 1, [2]*101), (11, 3, 11, [11 + k for k in range(11)]),
                       (2, 40, 5, [30, 7]), (3, 1, 7, [7, 7, 8])):
        key = ('many', K)
        A, C = ints('A', key, shape=(I, R)), ints('C', key, shape=(K, R))
        evolving(A, [ints('B', k, key, shape=(j, R)) for k, j in enumerate(J)], C, True, 'C', rec)
        parafac2(A, [ints('P', k, key, shape=(j, R)) for k, j in enumerate(J)], ints('F', key, shape=(R, R)), C, False, 'C', rec)
        rec.evaluated(key)


def calls(job, rec):
    """All sequences of two calls, also on different tensors: no call depends on, or changes, another one."""
    J, I, R = job['J'], 2, 2
    key = ('calls', job['seed'], tuple(J))
    variants = [[ints('A', key, v, shape=(I, R)), [ints('B', key, v, k, shape=(j, R)) for k, j in enumerate(J)], ints('C', key, v, shape=(len(J), R))] for v in range(2)]
    factored = [[ints('A', key, v, shape=(I, R)), ints('F', key, v, shape=(R, R)), ints('C', key, v, shape=(len(J), R)),
                 [ints('B', key, v, k, shape=(j, R)) for k, j in enumerate(J)]] for v in range(2)]
    full = lambda v: [v[0], [P @ v[1] for P in v[3]], v[2]]

    def padded(slices):
        out = np.zeros((I, max(J), len(J)))
        for k, X in enumerate(slices):
            out[:, :J[k], k] = X
        return out

    families = []
    for name, cls, given, content in (('evolving', EvolvingTensor, variants, lambda v: v), ('parafac2', Parafac2Tensor, factored, full)):
        make = lambda *v, cls=cls: cls(*v, warning=False)
        refs = [slices_ref(*content(v)) for v in given]
        families.append((name + ' tensor', lambda *v, make=make: make(*v).construct_tensor(), [(v, padded(s)) for v, s in zip(given, refs)]))
        families.append((name + ' slices', lambda *v, make=make: list(make(*v).construct_slices()), [(v, s) for v, s in zip(given, refs)]))
        families.append((name + ' slice', lambda *v, make=make: make(*v).construct_slice(1), [(v, s[1]) for v, s in zip(given, refs)]))
        families.append((name + ' B', lambda *v, make=make: [np.array(make(*v).B[k]) for k in range(len(J))], [(v, content(v)[1]) for v in given]))
        families.append((name + ' unfolded', lambda *v, make=make: np.array(make(*v).B_unfolded), [(v, np.concatenate(content(v)[1])) for v in given]))
    call_histories(rec, families)
    rec.sample({'J': J})
