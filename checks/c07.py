"""C07: storing and loading is lossless and type-checked."""
import itertools
import os
from pathlib import Path

import h5py
import numpy as np
from tenkit.decomposition.decompositions import EvolvingTensor, KruskalTensor, Parafac2Tensor
from mc.util import LAYOUTS, with_layout, raises, rng, same_bits, scratch, close

ID = 'C07'
LEVEL = 'model_checking'
RULE = ('all sequences (depth 3, thorough 4) of storing one of 8 different decompositions (three types, different numbers of modes, '
        'components and slices) over one file or in groups of it (side by side and inside of each other), loading as every type after each step; all shapes {1,2,3}^n for '
        'n = 2..4 x ranks x data types x special values x layouts of single round trips; every assignment of two or more number types, and of plain contents (zeros, ones, unit matrices, equal columns), to the single arrays; up to 1001 modes or slices')
ASSUMPTIONS = ['complete, closed files', 'HDF5 itself stores arrays correctly']
TYPES = {'KruskalTensor': KruskalTensor, 'EvolvingTensor': EvolvingTensor, 'Parafac2Tensor': Parafac2Tensor}


def jobs(tier, seed):
    depth = 4 if tier == 'thorough' else 3
    out = [{'kind': 'history', 'first': i, 'depth': depth} for i in range(len(catalogue()))]
    out += [{'kind': 'single', 'dtype': d, 'seed': seed, 'tier': tier} for d in ('f8', 'f4', 'f2', 'i8', 'i4', 'c16', '>f8')]
    out += [{'kind': 'values', 'type': t, 'tier': tier} for t in TYPES]
    out += [{'kind': 'many', 'n': n, 'type': t} for n in (9, 10, 11, 99, 100, 101, 1001) for t in TYPES]
    return out


PLAIN = False


def data(*key, shape, dtype='f8'):
    x = rng('c07', *key).standard_normal(shape)*10
    if np.dtype(dtype).kind == 'c':
        x = x + 1j*rng('c07i', *key).standard_normal(shape)
    x = x.astype(dtype)
    if PLAIN:
        return x
    if x.dtype.kind in 'fc' and x.size:
        special = (np.nan, np.inf, -np.inf, -0.0, np.finfo(x.dtype).tiny/2, np.finfo(x.dtype).max, 0.1)
        flat = x.reshape(-1)
        for i in range(0, flat.size, 3):
            flat[i] = special[(i//3 + len(repr(key))) % len(special)]
    return x


def kruskal(shape, rank, dtype='f8', weights=True, layout='C'):
    fms = [with_layout(data('k', i, shape, rank, shape=(s, rank), dtype=dtype), layout) for i, s in enumerate(shape)]
    return KruskalTensor(fms, data('w', shape, rank, shape=(rank,), dtype=dtype) if weights else None)


def evolving(I, J, rank, dtype='f8', warning=True, layout='C', as_array=False):
    K = len(J)
    Bs = [with_layout(data('b', k, I, J, rank, shape=(j, rank), dtype=dtype), layout) for k, j in enumerate(J)]
    return EvolvingTensor(with_layout(data('a', I, J, rank, shape=(I, rank), dtype=dtype), layout), np.array(Bs) if as_array else Bs,
                          with_layout(data('c', I, J, rank, shape=(K, rank), dtype=dtype), layout), warning=warning)


def parafac2(I, J, rank, dtype='f8', warning=True, layout='C'):
    K = len(J)
    P = [with_layout(data('p', k, I, J, rank, shape=(j, rank), dtype=dtype), layout) for k, j in enumerate(J)]
    A, F, C = (with_layout(data(n, I, J, rank, shape=(s, rank), dtype=dtype), layout) for n, s in (('a', I), ('f', rank), ('c', K)))
    return Parafac2Tensor(A, F, C, P, warning=warning)


def arrays(t):
    """Names and arrays that make up a decomposition."""
    if isinstance(t, KruskalTensor):
        return [(f'factor {i}', f) for i, f in enumerate(t.factor_matrices)] + [('weights', t.weights)]
    if isinstance(t, Parafac2Tensor):
        return [('A', t.A), ('blueprint', t.blueprint_B), ('C', t.C)] + [(f'P_{k}', p) for k, p in enumerate(t.projection_matrices)]
    return [('A', t.A), ('C', t.C)] + [(f'B_{k}', b) for k, b in enumerate(t.B)]


def snapshot(t):
    return [(n, np.array(a)) for n, a in arrays(t)]


def same(t, u, rec, **info):
    a, b = arrays(t), arrays(u)
    rec.check(type(t) is type(u), 'another type was loaded', stored=type(t).__name__, loaded=type(u).__name__, **info)
    rec.check([n for n, _ in a] == [n for n, _ in b], 'another number of arrays was loaded', stored=len(a), loaded=len(b), **info)
    for (n, x), (_, y) in zip(a, b):
        rec.check(same_bits(x, y), f'{n} is not the same after storing and loading', stored=x, loaded=y, **info)
    rec.check(t.rank == u.rank and list(t.shape) == list(u.shape), 'rank or shape', **info)
    if not isinstance(t, KruskalTensor):
        rec.check(bool(t.warning) == bool(u.warning) and bool(t.all_same_size) == bool(u.all_same_size), 'warning flags', **info)
    finite = all(np.all(np.isfinite(x)) and np.max(np.abs(x)) < 1e20 for _, x in a)
    if finite and all(x.dtype in (np.dtype('f8'), np.dtype('i8')) for _, x in a) and len(t.shape) <= 30 and np.prod([float(s) for s in t.shape]) < 1e6:
        x = construct(t)
        y = construct(u)
        rec.check((x is None and y is None) or close(x, y, 1e-11, 1e-11),
                  'the loaded tensor constructs something else', **info)


def construct(t):
    if isinstance(t, KruskalTensor):
        return t.construct_tensor() if t.factor_matrices[0].dtype.kind != 'c' else None
    if t.A.dtype.kind == 'c':
        return None
    try:
        return t.construct_tensor()
    except Warning:
        return None


def check_load(path, stored, rec, **info):
    for name, cls in TYPES.items():
        if name == type(stored).__name__:
            same(stored, cls.from_file(path), rec, **info)
        else:
            e = None
            try:
                got = cls.from_file(path)
            except (Exception, Warning) as err:
                e = err
            rec.check(e is not None, f'a stored {type(stored).__name__} is loaded as {name}', **info)
        rec.evaluated((name, snapshot(stored)))


def catalogue():
    global PLAIN
    PLAIN = True
    try:
        return _catalogue()
    finally:
        PLAIN = False


def _catalogue():
    return [kruskal((2, 3), 2), kruskal((3, 1, 2, 2), 3), kruskal((2, 3), 1, weights=False), evolving(2, [3, 1, 2], 2),
            evolving(2, [2], 1, warning=False), parafac2(3, [2, 3], 2), parafac2(1, [4, 4, 4], 3, warning=False), kruskal((2,)*11, 2)]


def run(job, rec):
    with scratch() as tmp:
        {'history': history, 'single': single, 'many': many, 'values': values}[job['kind']](job, rec, tmp)


def contents(path):
    found = {}
    with h5py.File(path, 'r') as h5:
        def visit(name, obj):
            found[name] = (obj[...].tobytes(), obj.shape, obj.dtype.str) if isinstance(obj, h5py.Dataset) else 'group'
            found[name, 'attrs'] = {k: repr(v) for k, v in obj.attrs.items()}
        h5.visititems(visit)
        found['', 'attrs'] = {k: repr(v) for k, v in h5.attrs.items()}
    return found


def history(job, rec, tmp):
    objects = catalogue()
    fresh = []
    for i, t in enumerate(objects):
        path = os.path.join(tmp, f'fresh{i}.h5')
        t.store(path)
        fresh.append(contents(path))
    count = itertools.count()
    for tail in itertools.product(range(len(objects)), repeat=job['depth'] - 1):
        seq = (job['first'],) + tail
        path = os.path.join(tmp, f'seq{next(count) % 3}.h5')
        if os.path.exists(path):
            os.remove(path)
        for step, i in enumerate(seq):
            t = objects[i]
            before = snapshot(t)
            t.store(Path(path) if step % 2 else path)
            rec.transition()
            rec.state(seq[:step + 1])
            rec.check(all(same_bits(a, b) for (_, a), (_, b) in zip(before, arrays(t))) and len(before) == len(arrays(t)),
                      'storing changed the decomposition', history=seq[:step + 1])
            if step == len(seq) - 1:
                check_load(path, t, rec, history=seq)
                rec.check(contents(path) == fresh[i], 'the file holds more than the stored decomposition', history=seq,
                          extra=[str(k) for k in contents(path) if k not in fresh[i]])
        rec.trace()
        if len(set(seq)) == len(seq):
            groups(path, [objects[i] for i in seq], rec, seq)
    # over a file that is something else
    for i, t in enumerate(objects):
        path = os.path.join(tmp, 'other.h5')
        with h5py.File(path, 'w') as h5:
            h5['A'] = np.ones(3)
            h5['factor_matrix000'] = np.ones((9, 9))
            h5.create_group('something')['weights'] = 1
            h5.attrs['type'] = 'KruskalTensor'
        t.store(path)
        rec.check(contents(path) == fresh[i], 'storing over a file does not replace its content', type=type(t).__name__)
        check_load(path, t, rec)
        rec.transition()
    rec.sample({'first': type(objects[job['first']]).__name__, 'depth': job['depth']})


def groups(path, objects, rec, seq):
    """Several decompositions in groups of one file, side by side and inside of each other."""
    beside = [f'a/{n}' if n % 2 else f'g{n}' for n in range(len(objects))]
    inside = ['/'.join(['top', *'xyzuvw'][:n + 1]) for n in range(len(objects))]
    root = ['/'] + [f'x{n}' for n in range(1, len(objects))]
    for names in (beside, inside, root):
        in_groups(path, objects, names, range(len(objects)), rec, seq)
        in_groups(path, objects, names, reversed(range(len(objects))), rec, seq)


def in_groups(path, objects, names, order, rec, seq):
    os.remove(path)
    with h5py.File(path, 'w') as h5:
        for n in order:
            objects[n].store_in_hdf5_group(h5.require_group(names[n]))
            rec.transition()
    with h5py.File(path, 'r') as h5:
        for n, t in enumerate(objects):
            group = h5[names[n]]
            same(t, type(t).load_from_hdf5_group(group), rec, groups=seq)
            for cls in TYPES.values():
                if cls is not type(t):
                    e = None
                    try:
                        cls.load_from_hdf5_group(group)
                    except (Exception, Warning) as err:
                        e = err
                    rec.check(e is not None, f'a stored {type(t).__name__} is loaded as {cls.__name__}', groups=seq)


def single(job, rec, tmp):
    dtype = job['dtype']
    path = os.path.join(tmp, 'a.h5')
    layouts = LAYOUTS if job['tier'] == 'thorough' else ('C', 'F', 'strided', 'negative')
    for layout in layouts:
        for order in (2, 3, 4):
            for shape in itertools.product((1, 2, 3), repeat=order):
                for rank in (1, 2) if layout != 'C' else (1, 2, 3, 4):
                    if layout != 'C' and sum(shape) % 2:
                        continue
                    one(kruskal(shape, rank, dtype, weights=sum(shape) % 3 > 0, layout=layout), path, rec)
        for K in (1, 2, 3):
            for J in itertools.product((1, 2, 3), repeat=K):
                for I, rank in itertools.product((1, 2), (1, 2, 3)):
                    if layout != 'C' and (sum(J) + I) % 2:
                        continue
                    warning = (sum(J) + rank) % 2 == 0
                    one(evolving(I, J, rank, dtype, warning, layout, as_array=len(set(J)) == 1 and I == 2), path, rec)
                    one(parafac2(I, J, rank, dtype, warning, layout), path, rec)
    rec.sample({'dtype': dtype})


def one(t, path, rec):
    before = snapshot(t)
    t.store(path)
    rec.check(all(same_bits(a, b) for (_, a), (_, b) in zip(before, arrays(t))), 'storing changed the decomposition')
    same(t, type(t).from_file(path), rec)
    rec.state([type(t).__name__, before])
    rec.transition()


def plain(kind, x):
    if kind == 'data':
        return x
    out = {'zeros': np.zeros, 'ones': np.ones, 'negative zeros': np.zeros, 'twos': np.ones, 'equal columns': np.ones, 'unit': np.zeros}[kind](x.shape, dtype=x.dtype)
    if kind == 'negative zeros':
        out = -out
    elif kind == 'twos':
        out *= 2
    elif kind == 'equal columns':
        out[...] = np.arange(1, len(x) + 1).reshape(-1, *[1]*(x.ndim - 1))
    elif kind == 'unit':
        np.fill_diagonal(out, 1) if x.ndim == 2 else out.__setitem__(0, 1)
    return out


def values(job, rec, tmp):
    """Nothing is left out because of what it holds."""
    path = os.path.join(tmp, 'a.h5')
    kinds = ('data', 'zeros', 'ones', 'negative zeros', 'twos', 'equal columns', 'unit')
    dtypes = ('f8', 'f4', 'i8') + (('c16', '>f8') if job['tier'] == 'thorough' else ())

    def build(change):
        """The decomposition whose arrays are changed by ``change(number, array)``."""
        number = itertools.count()

        def c(x):
            return change(next(number), x)
        if job['type'] == 'KruskalTensor':
            t = kruskal((2, 3), 2)
            w = c(t.weights)
            return KruskalTensor([c(f) for f in t.factor_matrices], w)
        if job['type'] == 'EvolvingTensor':
            t = evolving(2, [3, 3], 2)
            return EvolvingTensor(c(t.A), [c(b) for b in t.B], c(t.C))
        t = parafac2(2, [3, 3], 2)
        return Parafac2Tensor(c(t.A), c(t.blueprint_B), c(t.C), [c(p) for p in t.projection_matrices])

    global PLAIN
    PLAIN = True
    n = len(arrays(build(lambda k, x: x)))
    for which in itertools.product(range(len(kinds)), repeat=min(n, 4)):
        for dtype in dtypes:
            one(build(lambda k, x: plain(kinds[which[k % len(which)]], x.astype(dtype))), path, rec)
    for types in itertools.product(dtypes, repeat=n):
        for kind in kinds:
            one(build(lambda k, x: plain(kind, x.astype(types[k]))), path, rec)
    PLAIN = False
    rec.sample({'type': job['type']})


def many(job, rec, tmp):
    n = job['n']
    path = os.path.join(tmp, 'a.h5')
    t = {'KruskalTensor': lambda: kruskal((1,)*(n - 1) + (2,), 2), 'EvolvingTensor': lambda: evolving(1, [1 + k % 2 for k in range(n)], 1),
         'Parafac2Tensor': lambda: parafac2(1, [1]*(n - 1) + [2], 1)}[job['type']]()
    one(t, path, rec)
    check_load(path, t, rec, n=n)
    # many components
    t = {'KruskalTensor': lambda: kruskal((2, 2), n), 'EvolvingTensor': lambda: evolving(2, [2, 3], n),
         'Parafac2Tensor': lambda: parafac2(1, [2, 2], min(n, 101))}[job['type']]()
    one(t, path, rec)
    # long factor matrices
    t = {'KruskalTensor': lambda: kruskal((2, 30*n, 3), 4), 'EvolvingTensor': lambda: evolving(30*n, [2, 20*n], 2),
         'Parafac2Tensor': lambda: parafac2(10*n, [2, 30*n], 3)}[job['type']]()
    one(t, path, rec)
    rec.sample({'n': n, 'type': job['type']})
