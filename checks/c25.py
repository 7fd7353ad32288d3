"""C25: synthetic data is the model plus noise of the requested relative size."""
import itertools

import numpy as np
from tenkit import base, utils
from mc.util import kruskal_ref

ID = 'C25'
LEVEL = 'exploration'
RULE = ('every shape of order 2 (sides 1-5), 3 (1-4), 4 (1-3) and 5 (1-2) x every rank 1-4 (thorough 1-6) x noise factors {0, 0.1, 0.33, 1, 5, -0.5} x both generators, with the random numbers drawn (a) from seeds '
        'and (b) from every cyclic pattern over small alphabets of draws; the tensor is compared with an outer-product reference')
ASSUMPTIONS = ['at least two modes', 'no drawn column and no drawn noise tensor is zero (probability zero)']

NOISE = (0, 0.1, 0.33, 1, 5.0, -0.5)


def jobs(tier, seed):
    out = []
    for order, sides in ((2, 5), (3, 4), (4, 3), (5, 2)):
        for rank in range(1, 7 if tier == 'thorough' else 5):
            for first in range(1, sides + 1):
                out.append({'order': order, 'sides': sides, 'rank': rank, 'first': first, 'seeds': [10*seed + i for i in range(8 if tier == 'thorough' else 2)],
                            'length': 5 if tier == 'thorough' else 3})
    return out


ALPHABETS = {'randn': (-1.5, 0.25, 2.0), 'uniform': (0.0, 0.5, 0.999)}


class Scripted:
    """Stand-in for the generator: draws cycle through a pattern."""

    def __init__(self, pattern):
        self.pattern = pattern
        self.count = 0

    def draw(self, name, shape):
        n = int(np.prod(shape, dtype=int))
        values = [ALPHABETS[name][self.pattern[(self.count + i) % len(self.pattern)]] for i in range(n)]
        self.count += n + 1
        return np.array(values, dtype=float).reshape(shape)

    def __enter__(self):
        self.saved = np.random.randn, np.random.uniform
        np.random.randn = lambda *shape: self.draw('randn', shape)
        np.random.uniform = lambda low=0.0, high=1.0, size=(): low + (high - low)*self.draw('uniform', (size,) if isinstance(size, int) else size)

    def __exit__(self, *args):
        np.random.randn, np.random.uniform = self.saved


def run(job, rec):
    for rest in itertools.product(range(1, job['sides'] + 1), repeat=job['order'] - 1):
        shape = (job['first'], *rest)
        for generator in ('create_data', 'create_non_negative_data'):
            for number, noise in enumerate(NOISE):
                for seed in job['seeds']:
                    np.random.seed(seed)
                    sizes = (shape, list(shape), np.array(shape))[(number + seed) % 3]
                    case(rec, generator, shape, sizes, job['rank'], noise, ('seed', seed))
            for length in range(1, job['length'] + 1):
                for pattern in itertools.product(range(3), repeat=length):
                    with Scripted(pattern):
                        case(rec, generator, shape, shape, job['rank'], 0.1, ('pattern', pattern))
    factors_alone(job, rec)
    rec.sample({'order': job['order'], 'rank': job['rank']})


def case(rec, generator, shape, sizes, rank, noise_factor, draws):
    info = dict(generator=generator, shape=shape, rank=rank, noise_factor=noise_factor, draws=draws)
    given = np.array(sizes).tolist()
    if noise_factor == 0 and sum(shape) % 2:
        tensor, factors, norms, noise = getattr(utils, generator)(sizes, rank)
    else:
        tensor, factors, norms, noise = getattr(utils, generator)(sizes, rank, noise_factor=noise_factor)
    columns = np.concatenate([np.linalg.norm(f, axis=0) for f in factors])
    if np.any(columns < 1e-3):
        rec.note('drawn columns that are zero')
        return
    rec.check(len(factors) == len(shape) and [f.shape for f in factors] == [(s, rank) for s in shape], 'shapes of the factors', got=[f.shape for f in factors], **info)
    rec.check(tensor.shape == tuple(shape) and noise.shape == tuple(shape), 'shape of the tensor', got=[tensor.shape, noise.shape], **info)
    rec.check(np.all(np.abs(columns - 1) <= 1e-7), 'the factors do not have unit columns', got=columns, **info)
    rec.check(len(norms) == len(shape) and all(np.size(n) == rank and np.all(n > 0) for n in norms), 'norms', got=norms, **info)
    if generator == 'create_non_negative_data':
        rec.check(all(np.all(f >= 0) for f in factors), 'the non-negative generator returns negative factors', factors=factors, **info)
    model = kruskal_ref(factors)
    size = np.linalg.norm(model)
    if size < 1e-6:
        rec.note('components cancel')
        return
    rec.check(abs(np.linalg.norm(noise) - size) <= 1e-12*max(size, 1)*np.sqrt(rank)*10, 'the noise does not have the norm of the noise-free tensor', got=np.linalg.norm(noise), expected=size, **info)
    rec.check(np.max(np.abs(tensor - model - noise_factor*noise)) <= 1e-12*rank*(1 + abs(noise_factor)), 'the tensor is not the model plus the noise factor times the noise', **info)
    rec.check(np.array(sizes).tolist() == given, 'the sizes were changed', **info)
    rec.check(not np.shares_memory(tensor, noise) and not any(np.shares_memory(tensor, f) for f in factors), 'the results share memory', **info)
    rec.evaluated((generator, shape, rank, noise_factor, draws))


def factors_alone(job, rec):
    """The factor generators, and the tensor of given factors."""
    rank = job['rank']
    for rest in itertools.product(range(1, job['sides'] + 1), repeat=job['order'] - 1):
        shape = (job['first'], *rest)
        for seed in job['seeds']:
            for generator in ('create_random_factors', 'create_random_uniform_factors'):
                np.random.seed(seed)
                factors, norms = getattr(utils, generator)(shape, rank)
                info = dict(generator=generator, shape=shape, rank=rank, seed=seed)
                rec.check([f.shape for f in factors] == [(s, rank) for s in shape] and len(norms) == len(shape), 'shapes', **info)
                rec.check(all(np.all(np.abs(np.linalg.norm(f, axis=0) - 1) <= 1e-7) for f in factors), 'the factors do not have unit columns', **info)
                rec.check(generator == 'create_random_factors' or all(np.all(f >= 0) for f in factors), 'uniform factors have negative entries', **info)
                # (integers, so that the comparison is exact)
                whole = [np.round(4*f) for f in factors]
                rec.check(np.array_equal(base.ktensor(*whole), kruskal_ref(whole)), 'ktensor', factors=whole, **info)
                rec.evaluated(info)
