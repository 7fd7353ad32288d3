"""Data, layouts and references used by several checks."""
import contextlib
import itertools
import os
import shutil
import tempfile

import numpy as np


def compositions(n):
    """All ordered ways to write n as a sum of positive integers."""
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first,) + rest


def merges(a, b):
    """All interleavings of two sequences."""
    if not a or not b:
        yield tuple(a) + tuple(b)
        return
    for rest in merges(a[1:], b):
        yield (a[0],) + rest
    for rest in merges(a, b[1:]):
        yield (b[0],) + rest


LAYOUTS = ('C', 'F', 'strided', 'negative', 'readonly', 'view')


def with_layout(x, layout):
    """The same array content in another memory layout."""
    x = np.asarray(x)
    if layout == 'C':
        return np.array(x, order='C')
    if layout == 'F':
        return np.array(x, order='F')
    if layout == 'strided':
        big = np.full([2*s + 1 for s in x.shape], 7, dtype=x.dtype)
        view = big[tuple(slice(1, None, 2) for _ in x.shape)]
        view[...] = x
        return view
    if layout == 'negative':
        rev = tuple(slice(None, None, -1) for _ in x.shape)
        return np.array(x[rev], order='C')[rev]
    if layout == 'readonly':
        y = np.array(x, order='C')
        y.flags.writeable = False
        return y
    if layout == 'view':   # cyclically transposed storage
        perm = list(range(1, x.ndim)) + [0] if x.ndim else []
        inv = np.argsort(perm)
        return np.array(x.transpose(perm), order='C').transpose(inv) if x.ndim else np.array(x)
    raise ValueError(layout)


def fingerprint(*arrays):
    return [(a.dtype.str, a.shape, a.tobytes()) for a in arrays]


def same_bits(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def exactly(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b))


def close(a, b, rtol=1e-9, atol=0.0):
    """|a-b| <= atol + rtol*scale in max norm, False on shape mismatch or NaN."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = max(np.max(np.abs(a)), np.max(np.abs(b)))
    return bool(np.max(np.abs(a - b)) <= atol + rtol*scale)


def kruskal_ref(factors, weights=None):
    """sum_r w_r u_r o v_r o ..., by explicit outer products."""
    rank = factors[0].shape[1]
    if weights is None:
        weights = np.ones(rank)
    out = np.zeros([f.shape[0] for f in factors])
    for r in range(rank):
        comp = np.array(float(weights[r]))
        for f in factors:
            comp = np.multiply.outer(comp, np.asarray(f, dtype=float)[:, r])
        out += comp
    return out


def rng(*key):
    """Deterministic generator, independent of the process's hash seed."""
    import zlib
    return np.random.RandomState(zlib.crc32(repr(key).encode()) & 0x7fffffff)


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix='mc_')
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def raises(fn, *args, **kwargs):
    """The exception raised by the call, or None."""
    try:
        fn(*args, **kwargs)
    except Exception as e:
        return e
    return None


def unfold_ref(x, n):
    """Mode-n matricisation by index arithmetic."""
    n = n % x.ndim
    rest = [s for i, s in enumerate(x.shape) if i != n]
    out = np.empty((x.shape[n], int(np.prod(rest, dtype=int))), dtype=x.dtype)
    for idx in np.ndindex(*x.shape):
        col = 0
        for i, s in enumerate(x.shape):
            if i != n:
                col = col*s + idx[i]
        out[idx[n], col] = x[idx]
    return out


def shuffled_product(*its):
    return list(itertools.product(*its))
