"""C02: Kronecker, Khatri-Rao and MTTKRP products.

The products are multilinear, so for one shape they are decided by all combinations of unit
matrices (one entry 1, the others 0).  This is done for the small shapes; larger shapes use
integer matrices (all arithmetic exact), including all-different entries.
"""
import itertools
import numpy as np
from tenkit import base
from mc.history import call_histories
from mc.util import LAYOUTS, with_layout, exactly, fingerprint, kruskal_ref, rng, unfold_ref

ID = 'C02'
LEVEL = 'exploration'
RULE = ('all lists of 2-4 matrices with 1-3 rows and 1-3 columns x skipped factor x layout with integer entries, all '
        'combinations of unit matrices for the small shapes; MTTKRP: all tensor shapes of order 2-5 (dimensions 1-3, '
        'order 5: 1-2) x rank 1-4 x mode x layout; 20 large shapes (up to 7000 rows of the products) of order 2-6 x rank 1-150 x mode; every way in which modes share one array; every assignment of number types and of scales 2^-40, 1, 2^40; all sequences of two calls with results kept, overwritten, or inputs overwritten in between; exact integer comparison with entrywise sums. Non-trivial: some '
        'factor has more than one entry.')
ASSUMPTIONS = ['integer data, so that every sum is exact; modes are counted from zero as documented']


def jobs(tier, seed):
    out = []
    top = 4 if tier == 'thorough' else 3
    for n in (2, 3, 4):
        rows = list(itertools.product(range(1, top + 1), repeat=n))
        for i in range(4):
            out.append({'kind': 'kr', 'rows': rows[i::4], 'seed': seed})
    out.append({'kind': 'kr', 'rows': [(1,), (3,), (5,), (2, 1, 3, 2, 2), (1, 2, 1, 3, 2, 2), (6, 5), (9, 2, 4)], 'seed': seed})
    shapes = [s for n in (2, 3, 4) for s in itertools.product(range(1, top + 1), repeat=n)]
    shapes += list(itertools.product((1, 2), repeat=5)) + [(5, 4, 6), (7, 2, 3), (2, 8, 3), (3, 2, 9), (4, 3, 2, 5), (2, 3, 1, 2, 3, 2)]
    for i in range(24):
        out.append({'kind': 'mttkrp', 'shapes': shapes[i::24], 'seed': seed})
    big = [(65, 3, 2), (2, 70, 3), (3, 2, 130), (12, 33, 9), (35, 34, 3), (40, 37), (10, 9, 8, 7), (3, 129, 2), (5, 4, 3, 2, 6)]
    # dimensions and numbers of rows of products beyond anything that would be handled in blocks
    big += [(3, 5003), (5003, 3), (2, 97, 101), (2503, 3, 2), (3, 2503, 2), (2, 3, 2503), (5, 23, 7, 41), (29, 2, 31, 3), (7, 9, 8, 5, 6),
            (11, 3, 13, 2, 5), (4, 5, 3, 6, 2, 7)]
    out += [{'kind': 'large', 'shapes': [b], 'seed': seed} for b in big]
    small = [s for n in (2, 3) for s in itertools.product((1, 2), repeat=n)]
    out += [{'kind': 'units', 'shapes': small[i::6]} for i in range(6)]
    out += [{'kind': 'types', 'rows': rows, 'seed': seed} for rows in [(2, 3), (3, 2, 2), (2, 2, 3, 2), (1, 4, 3)]]
    out += [{'kind': 'aliased', 'order': n, 'seed': seed} for n in (2, 3, 4, 5)]
    out += [{'kind': 'scaled', 'shape': s, 'seed': seed} for s in [(2, 3), (3, 2, 4), (3, 3, 3), (2, 3, 2, 2), (2, 1, 2, 2, 2)]]
    out += [{'kind': 'history', 'shape': s, 'seed': seed} for s in [(2, 3), (2, 2), (3, 2, 2), (2, 2, 2), (2, 1, 3), (2, 2, 1, 2)]]
    kshapes = list(itertools.product(itertools.product((1, 2, 3), repeat=2), repeat=2))
    k3 = list(itertools.product(itertools.product((1, 2), repeat=2), repeat=3)) + \
        [((2, 3), (3, 1), (2, 2)), ((1, 4), (3, 2), (2, 1)), ((2, 2),)*4, ((1, 2), (2, 1), (3, 1), (1, 2), (2, 2)), ((3, 2),)]
    out += [{'kind': 'kron', 'shapes': (kshapes + k3)[i::6], 'seed': seed} for i in range(6)]
    return out


def ints(shape, *key):
    return rng('c02', key, tuple(shape)).randint(-9, 10, size=shape).astype(float)


def kr_ref(mats):
    rank = mats[0].shape[1]
    rows = list(itertools.product(*[range(m.shape[0]) for m in mats]))
    out = np.empty((len(rows), rank))
    for i, idx in enumerate(rows):
        for r in range(rank):
            v = 1.0
            for m, j in zip(mats, idx):
                v *= m[j, r]
            out[i, r] = v
    return out


def kron_ref(A, B):
    out = np.empty((A.shape[0]*B.shape[0], A.shape[1]*B.shape[1]))
    for i, j in np.ndindex(*A.shape):
        for k, m in np.ndindex(*B.shape):
            out[i*B.shape[0] + k, j*B.shape[1] + m] = A[i, j]*B[k, m]
    return out


def mttkrp_ref(X, fms, mode):
    rank = fms[0].shape[1]
    out = np.zeros((X.shape[mode], rank))
    for idx in np.ndindex(*X.shape):
        v = np.full(rank, float(X[idx]))
        for n, j in enumerate(idx):
            if n != mode:
                v = v*fms[n][j]
        out[idx[mode]] += v
    return out


def run(job, rec):
    {'kr': kr, 'mttkrp': mttkrp, 'units': units, 'kron': kron, 'large': large, 'types': types, 'aliased': aliased, 'scaled': scaled, 'history': history}[job['kind']](job, rec)


def kr(job, rec):
    for rows in job['rows']:
        for rank, layout in itertools.product((1, 2, 3, 4), LAYOUTS):
            mats = [with_layout(ints((n, rank), job['seed'], i), layout) for i, n in enumerate(rows)]
            before = fingerprint(*mats)
            for skip in [None] + (list(range(-len(rows), len(rows))) if len(rows) > 1 else []):
                kept = [m for i, m in enumerate(mats) if skip is None or i != skip % len(rows)]
                ref = kr_ref(kept)
                got = base.khatri_rao(*mats, skip=skip)
                rec.check(exactly(got, ref), 'khatri_rao differs from the definition', got=got, expected=ref, rows=rows,
                          rank=rank, skip=skip, layout=layout)
                rec.check(fingerprint(*mats) == before, 'khatri_rao changed its input', rows=rows, rank=rank, skip=skip)
                rec.evaluated((rows, rank, skip, layout) if max(rows)*rank > 1 else None)
            if len(rows) == 2:
                got = base.khatri_rao_binary(*mats)
                rec.check(exactly(got, kr_ref(mats)), 'khatri_rao_binary differs from the definition', got=got, rows=rows, rank=rank)
        # matricised Kruskal tensor = factor times transposed Khatri-Rao product
        if len(rows) > 1:
            mats = [ints((n, 3), job['seed'], 'k', i) for i, n in enumerate(rows)]
            T = kruskal_ref(mats)
            for layout in LAYOUTS:
                given = [with_layout(m, layout) for m in mats]
                before = fingerprint(*given)
                got = base.ktensor(*given)
                rec.check(exactly(got, T) and fingerprint(*given) == before, 'ktensor is not the sum of the outer products of the columns', got=got, expected=T, rows=rows, layout=layout)
            for n in range(len(rows)):
                got = mats[n] @ base.khatri_rao(*mats, skip=n).T
                rec.check(exactly(got, unfold_ref(T, n)), 'row order does not match the matricisation', rows=rows, mode=n)
                rec.check(exactly(base.unfold(T, n), unfold_ref(T, n)), 'unfolding differs', rows=rows, mode=n)
                rec.evaluated((rows, n, 'identity'))
    rec.sample({'rows': job['rows'][:2]})


def kron(job, rec):
    for shapes in job['shapes']:
        for layout in LAYOUTS:
            mats = [with_layout(ints(s, job['seed'], i), layout) for i, s in enumerate(shapes)]
            before = fingerprint(*mats)
            ref = mats[0]
            for m in mats[1:]:
                ref = kron_ref(ref, m)
            got = base.kron(*mats)
            rec.check(exactly(got, ref), 'kron differs from the definition', shapes=shapes, layout=layout, got=got, expected=ref)
            if len(mats) == 2:
                got = base.kron_binary(*mats)
                rec.check(exactly(got, ref), 'kron_binary differs from the definition', shapes=shapes, layout=layout)
            if len(mats) == 2:
                u, v = mats[0][:, 0], mats[1][:, 0]
                rec.check(exactly(base.kron_binary_vectors(u, v), np.array([a*b for a in u for b in v])),
                          'kron_binary_vectors differs from the definition', u=u, v=v)
            rec.check(fingerprint(*mats) == before, 'kron changed its input', shapes=shapes)
            rec.evaluated((shapes, layout) if max(a*b for a, b in shapes) > 1 else None)
    rec.sample({'shapes': job['shapes'][:2]})


def mttkrp(job, rec):
    for shape in job['shapes']:
        shape = tuple(shape)
        for rank, layout in itertools.product((1, 2, 4), LAYOUTS):
            X = with_layout(ints(shape, job['seed'], 'X'), layout)
            fms = [with_layout(ints((n, rank), job['seed'], i), layout) for i, n in enumerate(shape)]
            before = fingerprint(X, *fms)
            for mode in range(len(shape)):
                ref = mttkrp_ref(X, fms, mode)
                for container in (list, tuple):
                    got = base.matrix_khatri_rao_product(X, container(fms), mode)
                    rec.check(exactly(got, ref), 'MTTKRP differs from the definition', shape=shape, rank=rank, mode=mode,
                              layout=layout, got=got, expected=ref)
                rec.check(fingerprint(X, *fms) == before, 'MTTKRP changed its input', shape=shape, rank=rank, mode=mode)
                rec.evaluated((shape, rank, mode, layout) if max(shape) > 1 else None)
    rec.sample({'shapes': job['shapes'][:2]})


def units(job, rec):
    """Every combination of unit matrices and unit tensors: decides the multilinear map for the shape."""
    for shape in job['shapes']:
        shape = tuple(shape)
        for rank in (1, 2):
            bases = []
            for n in shape:
                b = []
                for k in range(n*rank):
                    m = np.zeros(n*rank)
                    m[k] = 1
                    b.append(m.reshape(n, rank))
                bases.append(b)
            for combo in itertools.product(*bases):
                got = base.khatri_rao(*combo)
                rec.check(exactly(got, kr_ref(combo)), 'khatri_rao of unit matrices', combo=list(combo), got=got)
                rec.evaluated((shape, rank, combo))
                for idx in np.ndindex(*shape):
                    X = np.zeros(shape)
                    X[idx] = 1
                    for mode in range(len(shape)):
                        got = base.matrix_khatri_rao_product(X, list(combo), mode)
                        rec.check(exactly(got, mttkrp_ref(X, combo, mode)), 'MTTKRP of unit matrices', combo=list(combo), X=X,
                                  mode=mode, got=got)
                        rec.evaluated((shape, rank, combo, idx, mode))
    rec.sample({'shapes': job['shapes'][:2]})


def large(job, rec):
    letters = 'abcdefgh'
    for shape in job['shapes']:
        shape = tuple(shape)
        for rank in (1, 3, 17) + ((70, 150) if np.prod(shape) < 10000 else ()):
            X = ints(shape, job['seed'], 'X')
            fms = [ints((n, rank), job['seed'], i) for i, n in enumerate(shape)]
            idx = letters[:len(shape)]
            for mode in range(len(shape)):
                others = [i for i in range(len(shape)) if i != mode]
                ref = np.einsum(idx + ',' + ','.join(idx[i] + 'z' for i in others) + '->' + idx[mode] + 'z',
                                X, *[fms[i] for i in others], optimize=True)
                got = base.matrix_khatri_rao_product(X, fms, mode)
                rec.check(exactly(got, ref), 'MTTKRP differs from the definition', shape=shape, rank=rank, mode=mode)
                kr_ = np.einsum(','.join(idx[i] + 'z' for i in others) + '->' + ''.join(idx[i] for i in others) + 'z',
                                *[fms[i] for i in others]).reshape(-1, rank)
                rec.check(exactly(base.khatri_rao(*fms, skip=mode), kr_), 'khatri_rao differs from the definition',
                          shape=shape, rank=rank, skip=mode)
                rec.evaluated((shape, rank, mode, 'large'))


def types(job, rec):
    """Every assignment of number types to the factors (and the tensor), with values all of them can hold."""
    rows = tuple(job['rows'])
    whole = ('int8', 'int64', 'float32', 'float64')
    for which in itertools.product(whole, repeat=len(rows)):
        for rank in (1, 3):
            mats = []
            for i, (n, t) in enumerate(zip(rows, which)):
                m = ints((n, rank), job['seed'], 't', i)
                if t.startswith('float'):
                    m = m + 0.5*(ints((n, rank), job['seed'], 'h', i) > 0)    # halves are exact as well
                else:
                    m = np.sign(m)*(np.abs(m) % 3)
                mats.append(m.astype(t))
            before = fingerprint(*mats)
            exact = [m.astype(float) for m in mats]
            for skip in [None] + list(range(len(rows))):
                got = base.khatri_rao(*mats, skip=skip)
                rec.check(exactly(got, kr_ref([m for i, m in enumerate(exact) if i != skip])), 'khatri_rao differs from the definition',
                          types=which, rows=rows, skip=skip, got=got)
            rec.check(exactly(base.kron(*mats), kron_all(exact)), 'kron differs from the definition', types=which, rows=rows)
            for t in whole:
                X = ints(rows, job['seed'], 'X')
                X = (X + 0.5 if t.startswith('float') else np.sign(X)*(np.abs(X) % 3)).astype(t)
                for mode in range(len(rows)):
                    got = base.matrix_khatri_rao_product(X, mats, mode)
                    rec.check(exactly(got, mttkrp_ref(X.astype(float), exact, mode)), 'MTTKRP differs from the definition', types=which,
                              tensor=t, rows=rows, mode=mode, got=got)
                    if (which + (t,)).count('float32') <= 1:
                        # products that only double precision can hold
                        large = [m*m.dtype.type(129) if m.dtype.kind == 'f' else m for m in (X, *mats)]
                        got = base.matrix_khatri_rao_product(large[0], large[1:], mode)
                        rec.check(exactly(got, mttkrp_ref(large[0].astype(float), [m.astype(float) for m in large[1:]], mode)),
                                  'MTTKRP differs from the definition', types=which, tensor=t, rows=rows, mode=mode, values='large', got=got)
                        got = base.khatri_rao(*large[1:])
                        rec.check(exactly(got, kr_ref([m.astype(float) for m in large[1:]])), 'khatri_rao differs from the definition', types=which, rows=rows,
                                  values='large', got=got)
                    rec.evaluated((rows, rank, which, t, mode))
            rec.check(fingerprint(*mats) == before, 'a product changed its input', types=which, rows=rows)
    rec.sample({'rows': rows})


def partitions(n):
    """All ways to say which of n modes are equal: the block number of each mode."""
    def rest(prefix):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for b in range(max(prefix, default=-1) + 2):
            yield from rest(prefix + [b])
    return rest([])


def aliased(job, rec):
    """The same array object, or views of one, as factor matrix of several modes."""
    for which in partitions(job['order']):
        for rank in (1, 2, 3):
            for how in ('same', 'copy', 'view'):
                blocks = [ints((2 + (b % 2), rank), job['seed'], 'a', b) for b in range(job['order'])]
                pick = {'same': lambda m: m, 'copy': lambda m: m.copy(), 'view': lambda m: m[:]}[how]
                mats = [pick(blocks[b]) for b in which]
                before = fingerprint(*mats)
                shape = tuple(m.shape[0] for m in mats)
                X = ints(shape, job['seed'], 'X')
                for skip in [None] + list(range(len(mats))):
                    got = base.khatri_rao(*mats, skip=skip)
                    rec.check(exactly(got, kr_ref([m for i, m in enumerate(mats) if i != skip])), 'khatri_rao differs from the definition',
                              equal=which, skip=skip, how=how, got=got)
                for mode in range(len(mats)):
                    got = base.matrix_khatri_rao_product(X, mats, mode)
                    rec.check(exactly(got, mttkrp_ref(X, mats, mode)), 'MTTKRP differs from the definition', equal=which, mode=mode, how=how, got=got)
                rec.check(exactly(base.kron(*mats), kron_all(mats)), 'kron differs from the definition', equal=which, how=how)
                rec.check(fingerprint(*mats) == before, 'a product changed its input', equal=which, how=how)
                rec.evaluated((which, rank, how))
    rec.sample({'order': job['order']})


def scaled(job, rec):
    """Entries scaled by powers of two, and sparse ones: still exact."""
    shape = tuple(job['shape'])
    for powers in itertools.product((-40, 0, 40), repeat=len(shape) + 1):
        for rank in (1, 3):
            X = ints(shape, job['seed'], 'X')*2.0**powers[-1]
            fms = [ints((n, rank), job['seed'], i)*2.0**p for i, (n, p) in enumerate(zip(shape, powers))]
            for zero in [None] + list(range(len(shape))):
                if zero is not None:
                    fms = list(fms)
                    fms[zero] = fms[zero].copy()
                    fms[zero][:, -1] = 0
                    fms[zero][0] = 0
                for mode in range(len(shape)):
                    rec.check(exactly(base.matrix_khatri_rao_product(X, fms, mode), mttkrp_ref(X, fms, mode)), 'MTTKRP differs from the definition',
                              shape=shape, rank=rank, mode=mode, powers=powers)
                    if len(shape) > 1:
                        rec.check(exactly(base.khatri_rao(*fms, skip=mode), kr_ref([f for i, f in enumerate(fms) if i != mode])),
                                  'khatri_rao differs from the definition', shape=shape, rank=rank, skip=mode, powers=powers)
                rec.check(exactly(base.kron(*fms[:3]), kron_all(fms[:3])), 'kron differs from the definition', shape=shape, powers=powers)
                rec.evaluated((shape, powers, rank, zero))
    rec.sample({'shape': shape})


def history(job, rec):
    """All sequences of two calls: no call depends on, or changes, another one."""
    shape = tuple(job['shape'])
    for rank in (1, 2):
        fms = [[ints((n, rank), job['seed'], 'h', v, i) for i, n in enumerate(shape)] for v in range(2)]
        X = [ints(shape, job['seed'], 'hX', v) for v in range(2)]
        families = [('khatri_rao', base.khatri_rao, [(F, kr_ref(F)) for F in fms]), ('kron', base.kron, [(F, kron_all(F)) for F in fms]),
                    ('khatri_rao_binary', base.khatri_rao_binary, [(F[:2], kr_ref(F[:2])) for F in fms]),
                    ('kron_binary', base.kron_binary, [(F[:2], kron_ref(*F[:2])) for F in fms]),
                    ('kron_binary_vectors', base.kron_binary_vectors, [([F[0][:, 0], F[1][:, 0]], np.array([a*b for a in F[0][:, 0] for b in F[1][:, 0]])) for F in fms]),
                    ('ktensor', base.ktensor, [(F, kruskal_ref(F)) for F in fms])]
        for n in range(len(shape)):
            if len(shape) > 1:
                families.append((f'khatri_rao skip {n}', lambda *F, n=n: base.khatri_rao(*F, skip=n), [(F, kr_ref(F[:n] + F[n + 1:])) for F in fms]))
            families.append((f'mttkrp {n}', lambda T, F, n=n: base.matrix_khatri_rao_product(T, F, n), [([T, F], mttkrp_ref(T, F, n)) for T in X for F in fms]))
        call_histories(rec, families)
    rec.sample({'shape': shape})


def kron_all(mats):
    out = mats[0]
    for m in mats[1:]:
        out = kron_ref(out, m)
    return out
