"""C01: unfold, fold, flatten_factors and unflatten_factors are exact relocations.

Relocating functions do not look at values, so one tensor with pairwise different entries
per shape decides all values of that shape.
"""
import itertools
import numpy as np
from tenkit import base
from mc.history import call_histories
from mc.util import LAYOUTS, with_layout, unfold_ref, exactly, fingerprint

ID = 'C01'
LEVEL = 'exploration'
RULE = ('all shapes of order 1-4 with dimensions 1-3 (quick; 1-4 thorough), order 5 and 6 with dimensions 1-2, x every '
        'mode (also counted from the end) x memory layout x dtype, entries pairwise different; all lists of 1-4 factor '
        'matrices with 1-3 rows and 1-4 columns x layout; every assignment of number types to up to 4 factor matrices; 7 large shapes and 9 lists of large factor matrices; all sequences of 2-3 calls with results kept, overwritten, or inputs overwritten in between. Non-trivial: more than one entry.')
ASSUMPTIONS = ['dimensions of length zero are not explored']
DTYPES = ('f8', 'f4', 'i8', 'c16', '>f8', 'u1')


def jobs(tier, seed):
    top = 4 if tier == 'thorough' else 3
    shapes = []
    for order in range(1, 5):
        shapes += itertools.product(range(1, top + 1), repeat=order)
    for order in (5, 6):
        shapes += itertools.product((1, 2), repeat=order)
    shapes += [(5, 1, 7), (2, 9, 4), (11, 3), (3, 1, 1, 5), (2, 3, 4, 5), (3, 3, 2, 2, 3), (65, 2, 3), (2, 67, 3), (3, 2, 130), (17, 18)]
    out = [{'kind': 'tensor', 'shapes': shapes[i::32]} for i in range(32)]
    sizes = [s for n in range(1, 5) for s in itertools.product((1, 2, 3), repeat=n)] + [(7, 1, 5), (1,)*7, (4, 9, 2, 6, 3)]
    out += [{'kind': 'factors', 'sizes': sizes[i::8]} for i in range(8)]
    out += [{'kind': 'types', 'number': n} for n in ((1, 2, 3, 4, 5) if tier == 'thorough' else (1, 2, 3, 4))]
    out += [{'kind': 'large', 'shape': s} for s in [(70001, 2), (2, 70001), (3, 40009, 2), (257, 300), (2, 181, 190), (40, 2, 30, 31), (11, 3, 29, 2, 37)]]
    out += [{'kind': 'history', 'shape': s} for s in [(2, 3), (3, 2, 2), (2, 2, 2), (2, 1, 3, 2)]]
    return out


def run(job, rec):
    if job['kind'] == 'history':
        history(tuple(job['shape']), rec)
    elif job['kind'] == 'types':
        types(job['number'], rec)
    elif job['kind'] == 'large':
        large(tuple(job['shape']), rec)
    elif job['kind'] == 'tensor':
        for shape in job['shapes']:
            tensor(tuple(shape), rec)
    else:
        for sizes in job['sizes']:
            factors(tuple(sizes), rec)


def tensor(shape, rec):
    n_el = int(np.prod(shape))
    for dtype, layout in itertools.product(DTYPES, LAYOUTS):
        X = with_layout((np.arange(n_el) + 1).reshape(shape).astype(dtype), layout)
        before = fingerprint(X)
        for n in range(-len(shape), len(shape)):
            case = dict(shape=shape, mode=n, dtype=dtype, layout=layout)
            ref = unfold_ref(X, n)
            M = base.unfold(X, n)
            rec.check(exactly(M, ref), 'unfold differs from the definition', got=M, expected=ref, **case)
            for mlayout in LAYOUTS:
                for shp in (tuple(shape), list(shape)):
                    M2 = with_layout(ref, mlayout)
                    mb = fingerprint(M2)
                    Y = base.fold(M2, n, shp)
                    rec.check(exactly(Y, X), 'fold does not invert unfold', got=Y, expected=X, mlayout=mlayout, **case)
                    rec.check(list(shp) == list(shape) and len(shp) == len(shape), 'fold changed the shape argument', **case)
                    rec.check(fingerprint(M2) == mb, 'fold changed its input', **case)
            rec.check(exactly(base.fold(M, n, shape), X), 'fold(unfold(X)) is not X', **case)
            rec.check(fingerprint(X) == before, 'unfold changed its input', **case)
            rec.evaluated((shape, n, dtype, layout) if n_el > 1 else None)
    rec.sample({'shape': shape, 'modes': 2*len(shape)})


def factors(sizes, rec):
    for rank, layout, dtype in itertools.product((1, 2, 3, 4), LAYOUTS, ('f8', 'f4', 'i8')):
        off = 1
        fms = []
        for s in sizes:
            fms.append(with_layout((np.arange(s*rank) + off).reshape(s, rank).astype(dtype), layout))
            off += s*rank
        before = fingerprint(*fms)
        case = dict(sizes=sizes, rank=rank, layout=layout, dtype=dtype)
        for container in (list, tuple):
            flat = base.flatten_factors(container(fms))
            rec.check(np.ndim(flat) == 1 and len(flat) == sum(sizes)*rank, 'flatten_factors is not one vector', got=flat, **case)
            back = base.unflatten_factors(flat, rank, container(sizes))
            rec.check(len(back) == len(fms) and all(exactly(a, b) for a, b in zip(back, fms)),
                      'unflatten_factors does not invert flatten_factors', got=list(back), **case)
            # the vector alone determines the factors, and the factors the vector
            again = base.flatten_factors(back)
            rec.check(exactly(again, flat), 'flatten(unflatten(v)) is not v', **case)
            fb = fingerprint(flat)
            base.unflatten_factors(flat, rank, list(sizes))
            rec.check(fingerprint(flat) == fb, 'unflatten_factors changed its input', **case)
        rec.check(fingerprint(*fms) == before, 'flatten_factors changed its input', **case)
        rec.evaluated((sizes, rank, layout, dtype) if sum(sizes)*rank > 1 else None)
    rec.sample({'sizes': sizes})


def types(number, rec):
    """Factor matrices of several number types, with values that the other types can't hold."""
    kinds = ('f8', 'f4', '>f8', 'i8', 'u1', 'i2')
    for which in itertools.product(kinds, repeat=number):
        for rank in (1, 2):
            fms = []
            for k, t in enumerate(which):
                values = np.arange(1., (k % 3 + 1)*rank + 1).reshape(-1, rank)
                values = {'f8': values/7 - 1e-9, '>f8': values*1e200/3, 'f4': -values/3, 'i8': values*2**40 + 1, 'u1': values + 249, 'i2': values - 30001}[t]
                fms.append(values.astype(t))
            before = fingerprint(*fms)
            back = base.unflatten_factors(base.flatten_factors(fms), rank, [len(f) for f in fms])
            rec.check(len(back) == number and all(exactly(a, b) for a, b in zip(back, fms)), 'unflatten_factors does not invert flatten_factors',
                      got=list(back), types=which, rank=rank)
            rec.check(fingerprint(*fms) == before, 'flatten_factors changed its input', types=which)
            rec.evaluated((which, rank))
    rec.sample({'number': number})


def history(shape, rec):
    """All sequences of two (order 2 and 3: three) calls: no call depends on, or changes, another one."""
    X = np.arange(1., np.prod(shape) + 1).reshape(shape)
    tensors = [X, -3*X[::-1].copy()]
    rank = 2
    fms = [[k*100 + np.arange(1., n*rank + 1).reshape(n, rank) for k, n in enumerate(shape)]]
    fms.append([-7*f for f in fms[0]])
    flat = [np.concatenate([f.ravel() for f in F]) for F in fms]
    families = []
    for n in range(len(shape)):
        families.append((f'unfold {n}', lambda T, n=n: base.unfold(T, n), [([T], unfold_ref(T, n)) for T in tensors]))
        families.append((f'fold {n}', lambda M, n=n: base.fold(M, n, shape), [([unfold_ref(T, n)], T) for T in tensors]))
    families.append(('flatten', base.flatten_factors, [([F], v) for F, v in zip(fms, flat)]))
    families.append(('flatten reversed', base.flatten_factors, [([F[::-1]], np.concatenate([f.ravel() for f in F[::-1]])) for F in fms]))
    families.append(('unflatten', lambda v: base.unflatten_factors(v, rank, shape), [([v], F) for F, v in zip(fms, flat)]))
    call_histories(rec, families, depth=3 if len(shape) == 2 else 2)
    rec.sample({'shape': shape})


def large(shape, rec):
    n_el = int(np.prod(shape))
    strides = [int(np.prod(shape[i + 1:], dtype=int)) for i in range(len(shape))]
    for layout in LAYOUTS:
        X = with_layout(np.arange(n_el, dtype=float).reshape(shape), layout)
        for n in range(-len(shape), len(shape)):
            # element number of the entry in row i and column j
            rest = [i for i in range(len(shape)) if i != n % len(shape)]
            number = np.arange(shape[n])[:, np.newaxis]*strides[n % len(shape)]
            columns = np.zeros(1, dtype=int)
            for i in rest:
                columns = (columns[:, np.newaxis] + np.arange(shape[i])*strides[i]).ravel()
            M = base.unfold(X, n)
            rec.check(exactly(M, number + columns), 'unfold differs from the definition', shape=shape, mode=n, layout=layout)
            rec.check(exactly(base.fold(M, n, shape), X), 'fold does not invert unfold', shape=shape, mode=n, layout=layout)
            rec.evaluated((shape, n, layout))
        for rank in (1, 3, 7):
            start = np.concatenate([[0], np.cumsum(shape)])*rank
            fms = [with_layout(np.arange(a, b, dtype=float).reshape(-1, rank), layout) for a, b in zip(start, start[1:])]
            flat = base.flatten_factors(fms)
            back = base.unflatten_factors(flat, rank, shape)
            rec.check(len(back) == len(fms) and all(exactly(a, b) for a, b in zip(back, fms)), 'unflatten_factors does not invert flatten_factors',
                      sizes=shape, rank=rank, layout=layout)
            rec.evaluated((shape, rank, layout, 'factors'))
    rec.sample({'shape': shape})
