"""All histories of calls of pure functions: no call may depend on, or change, another one.

``families`` is a list of (name, function, [variant, ...]) in which a variant is
(inputs, expected): the inputs of all variants of a family have the same shapes and
types.  All sequences of ``depth`` calls (family, variant) are executed in four ways:

  keep      results are kept: they must be the expected ones after the whole sequence
  scribble  every result is overwritten, by its owner, before the next call
  edit      a family has one set of arrays, which are overwritten with the variant before each call
"""
import copy
import itertools
import numpy as np
from mc.util import exactly


def arrays(obj):
    """All arrays in nested lists, tuples and dictionaries."""
    if isinstance(obj, np.ndarray):
        return [obj]
    if isinstance(obj, dict):
        return [a for k in sorted(obj, key=str) for a in arrays(obj[k])]
    if isinstance(obj, (list, tuple)):
        return [a for o in obj for a in arrays(o)]
    return []


def same(got, expected, tol):
    a, b = arrays(got), arrays(expected)
    if not isinstance(got, (np.ndarray, list, tuple, dict)):
        return abs(got - expected) <= tol*max(1, abs(expected)) if tol else got == expected
    if len(a) != len(b):
        return False
    if not tol:
        return all(exactly(x, y) for x, y in zip(a, b))
    return all(np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=tol, atol=tol*max(np.max(np.abs(y), initial=0), 1e-300)) for x, y in zip(a, b))


def call_histories(rec, families, depth=2, tol=0):
    calls = [(f, v) for f, family in enumerate(families) for v in range(len(family[2]))]
    for way in ('keep', 'scribble', 'edit'):
        for sequence in itertools.product(calls, repeat=depth):
            own = {}
            for call in sequence:
                key = call[0] if way == 'edit' else call
                if key not in own or way == 'scribble':
                    own[key] = copy.deepcopy(families[call[0]][2][call[1]][0])
            results, names = [], []
            for f, v in sequence:
                name, function, variants = families[f]
                inputs, expected = variants[v]
                if way == 'edit':
                    given = own[f]
                    for mine, content in zip(arrays(given), arrays(inputs)):
                        mine[...] = content
                elif way == 'keep':
                    given = own[f, v]
                else:
                    given = copy.deepcopy(inputs)
                got = function(*given)
                names.append(f'{name}({v})')
                rec.check(same(got, expected, tol), 'a call returns something else after other calls', way=way, calls=list(names), got=got, expected=expected)
                results.append((got, expected))
                if way == 'scribble':
                    for a in arrays(got):
                        if a.flags.writeable:
                            a[...] = -77
            if way == 'keep':
                for got, expected in results:
                    rec.check(same(got, expected, tol), 'a later call changed the result of an earlier one', calls=names, got=got, expected=expected)
            rec.evaluated((way, sequence, [f[0] for f in families]))
