"""C21: sign fixing, scaling and permuting never change the model they describe."""
import itertools

import numpy as np
from tenkit import utils
from tenkit.decomposition import EvolvingTensor, KruskalTensor, Parafac2Tensor
from mc.util import LAYOUTS, close, exactly, fingerprint, kruskal_ref, rng, unfold_ref, with_layout

ID = 'C21'
LEVEL = 'exploration'
RULE = ('signs: all Kruskal tensors with integer entries -1..1 of shapes 2 x 2 x 2 (rank 1), 2 x 2 (rank 2), 3 x 2 (rank 1), 2 x 1 x 1 x 1 x 1, 1^6, 1^7 and families of orders 2..6 and ranks 1..4, '
        'each against 6 data tensors (the tensor itself, its negative, permuted, noisy, unrelated, integer); normalising, sign flipping and preparing: all lists of one and two integer matrices with entries '
        '-1..2 (3 x 2 and 2 x 1; thorough also 3 x 3), and families; permuting: all permutations of up to 5 components as tuple, list and array; all memory layouts; sign fixing of evolving tensors')
ASSUMPTIONS = ['two modes with equal sign scores may both be taken as the weakest one', 'column norms are zero or far from the smallest numbers']


def jobs(tier, seed):
    out = [{'kind': 'all signs', 'shape': s, 'rank': r, 'part': k, 'of': 6, 'seed': seed} for s, r in (([2, 2, 2], 1), ([2, 2], 2), ([3, 2], 1), ([2, 1, 1, 1, 1], 1), ([1]*6, 1), ([1]*7, 1)) for k in range(6)]
    out += [{'kind': 'signs', 'sizes': s, 'rank': r, 'seed': seed, 'n': 12 if tier == 'quick' else 60} for s in ([3, 4], [3, 4, 2], [2, 3, 2, 3], [2, 1, 3, 2, 2], [2, 2, 1, 2, 2, 3]) for r in ((1, 2, 3, 4) if len(s) < 5 else (1, 2))]
    out += [{'kind': 'columns', 'shape': s, 'part': k, 'of': 8} for s in ([3, 2], [2, 1], [1, 3], [4, 1]) + (([3, 3],) if tier == 'thorough' else ()) for k in range(8)]
    out += [{'kind': 'lists', 'seed': seed, 'rank': r} for r in (1, 2, 3)]
    out += [{'kind': 'permute', 'rank': r, 'seed': seed} for r in range(1, 6)]
    out += [{'kind': 'evolving', 'seed': seed}]
    return out


def run(job, rec):
    {'all signs': all_signs, 'signs': signs, 'columns': columns, 'lists': lists, 'permute': permute, 'evolving': evolving}[job['kind']](job, rec)


# ---------------------------------------------------------------- signs of Kruskal tensors

def reference_scores(factor, M):
    """Scores, and a bound for their size."""
    inverse = np.linalg.pinv(factor, rcond=1e-10)
    loadings = inverse @ M
    return np.sum(np.sign(loadings)*loadings**2, axis=1), (np.linalg.norm(inverse, 2)*np.linalg.norm(M))**2


def judge_signs(rec, factors, weights, X, **info):
    tensor = KruskalTensor([f.copy() for f in factors], None if weights is None else np.array(weights))
    before = fingerprint(*tensor.factor_matrices, tensor.weights, X)
    got = tensor.get_signs(X)
    scores = tensor.get_sign_scores(X)
    rec.check(fingerprint(*tensor.factor_matrices, tensor.weights, X) == before, 'the tensor or the data were modified', **info)
    n, rank = len(factors), factors[0].shape[1]
    info.update(factors=[f.tolist() for f in factors], data=X, signs=got)
    rec.check(len(got) == n and all(np.shape(s) == (rank,) for s in got), 'shape of the signs', **info)
    signs = np.array(got)
    rec.check(np.all(np.abs(signs) == 1), 'signs are not +1 or -1', **info)
    rec.check(np.all(np.prod(signs, axis=0) == 1), 'the signs of a component do not multiply to +1', **info)
    flipped = KruskalTensor([f*s for f, s in zip(factors, got)], weights)
    rec.check(close(flipped.construct_tensor(), kruskal_ref(factors, weights), rtol=1e-12, atol=1e-300) or np.all(kruskal_ref(factors, weights) == 0), 'applying the signs changes the tensor', **info)
    expected, sizes = zip(*[reference_scores(f, unfold_ref(X, m)) for m, f in enumerate(factors)])
    for m in range(n):
        rec.check(np.shape(scores[m]) == (rank,) and np.all(np.abs(scores[m] - expected[m]) <= 1e-9*(np.max(sizes[m]) + 1e-300)), 'sign scores', mode=m, got=scores[m], expected=expected[m], **info)
    for r in range(rank):
        size = [expected[m][r] for m in range(n)]
        unclear = [abs(v) <= 1e-9*max(np.max(s) for s in sizes) for v in size]
        against = [m for m in range(n) if not unclear[m] and signs[m][r] != (1 if size[m] > 0 else -1)]
        rec.check(len(against) <= 1, 'the signs disagree with the scores in more than one mode', component=r, scores=size, **info)
        if against:
            m = against[0]
            weakest = min(abs(v) for v in size)
            rec.check(abs(size[m]) <= weakest*(1 + 1e-7) + 1e-9*max(np.max(s) for s in sizes), 'not the mode with the weakest score disagrees', component=r, mode=m, scores=size, **info)
            if not any(unclear):
                rec.check(np.prod(np.sign(size)) < 0, 'a mode disagrees with its score although that is not needed', component=r, scores=size, **info)
    # single modes, with and without data
    for m, f in enumerate(factors):
        M = unfold_ref(X, m)
        before = fingerprint(f, M)
        sign, score = utils.get_signs(f, M)
        clear = np.abs(expected[m]) > 1e-9*np.max(sizes[m])
        rec.check(np.all(np.abs(sign) == 1) and np.all(sign[clear] == np.sign(expected[m][clear])), 'signs of one mode', mode=m, got=sign, expected=expected[m], **info)
        rec.check(np.all(np.abs(score - expected[m]) <= 1e-9*(np.max(sizes[m]) + 1e-300)), 'sign scores of one mode', mode=m, got=score, expected=expected[m], **info)
        sign, score = utils.get_signs(f, None)
        total = np.sum(f, axis=0)
        clear = np.abs(total) > 1e-9
        rec.check(np.all(np.abs(sign) == 1) and np.all(sign[clear] == np.sign(total[clear])), 'signs without data', mode=m, got=sign, expected=total, **info)
        rec.check(fingerprint(f, M) == before, 'the arguments were modified', mode=m, **info)
    rec.evaluated((factors, weights, X), n=1 + 2*n)


def datasets(factors, weights, r):
    X = kruskal_ref(factors, weights)
    size = max(1.0, np.max(np.abs(X)))
    return [X, -X, np.roll(X, 1), X + 0.3*size*r.standard_normal(X.shape), size*r.standard_normal(X.shape), r.randint(-2, 3, size=X.shape).astype(float)]


def all_signs(job, rec):
    shape, rank = job['shape'], job['rank']
    total = sum(shape)*rank
    for k, entries in enumerate(itertools.product((-1.0, 0.0, 1.0), repeat=total)):
        if k % job['of'] != job['part']:
            continue
        factors, start = [], 0
        for s in shape:
            factors.append(np.array(entries[start:start + s*rank]).reshape(s, rank))
            start += s*rank
        r = rng('signs', shape, rank, job['seed'], k)
        for X in datasets(factors, None, r):
            judge_signs(rec, factors, None, X)
    rec.sample({'shape': shape, 'rank': rank})


def signs(job, rec):
    sizes, rank = job['sizes'], job['rank']
    for n in range(job['n']):
        r = rng('signs family', sizes, rank, job['seed'], n)
        for kind in ('normal', 'nonneg', 'negative', 'dependent'):
            factors = [r.standard_normal((s, rank)) for s in sizes]
            if kind == 'nonneg':
                factors = [np.abs(f) for f in factors]
            elif kind == 'negative':
                factors = [-np.abs(f) if i % 2 == 0 else np.abs(f) for i, f in enumerate(factors)]
            elif kind == 'dependent' and rank > 1:
                for f in factors:
                    f[:, 1] = f[:, 0]
            for weights in (None, r.choice([-2.0, 0.5, 3.0], size=rank)):
                for X in datasets(factors, weights, r):
                    judge_signs(rec, factors, weights, X, kind=kind)
                    if len(sizes) <= 3 and n < 3:
                        a = KruskalTensor(factors, weights).get_signs(X)
                        for layout in LAYOUTS:
                            b = KruskalTensor([with_layout(f, layout) for f in factors], weights).get_signs(with_layout(X, layout))
                            scores = [np.abs(s) for s in KruskalTensor(factors, weights).get_sign_scores(X)]
                            if min(np.min(s) for s in scores) > 1e-6*max(np.max(s) for s in scores) and kind != 'dependent':
                                order = np.sort(np.array(scores), axis=0)
                                if np.all(order[1] - order[0] > 1e-6*order[1]):
                                    rec.check(all(exactly(x, y) for x, y in zip(a, b)), 'signs depend on the memory layout', layout=layout, sizes=sizes)
                            rec.evaluated()
    rec.sample({'sizes': sizes, 'rank': rank})


# ---------------------------------------------------------------- normalising and flipping

def judge_columns(rec, factors, **info):
    """normalize_factor(s), flip_factors and prepare_for_comparison on a list of matrices."""
    info['factors'] = [f.tolist() for f in factors]
    before = fingerprint(*factors)
    reference = [np.sqrt(np.sum(np.asarray(f, dtype=float)**2, axis=0)) for f in factors]

    def unit(normalised, norms, name):
        rec.check(len(normalised) == len(norms) == len(factors), f'{name}: number of matrices', **info)
        for f, g, n, expected in zip(factors, normalised, norms, reference):
            n = np.asarray(n)
            rec.check(n.size == expected.size and close(n.ravel(), expected, rtol=1e-12), f'{name}: norms', got=n, expected=expected, **info)
            length = np.sqrt(np.sum(g**2, axis=0))
            rec.check(np.all(np.abs(length - (expected > 0)) <= 1e-9), f'{name}: the columns do not have unit length', got=g, **info)
            rec.check(np.all(g[:, expected == 0] == 0), f'{name}: a zero column does not stay zero', got=g, **info)

    def restores(g, scale, f, name):
        rec.check(np.shape(g) == f.shape and np.max(np.abs(g*scale - f), initial=0) <= 1e-9*(1 + np.max(np.abs(f), initial=0)), f'{name} does not restore the original', got=g*scale, **info)

    normalised, norms = utils.normalize_factors(factors)
    unit(normalised, norms, 'normalize_factors')
    for g, n, f in zip(normalised, norms, factors):
        restores(g, n, f, 'normalize_factors')
    single = [utils.normalize_factor(f) for f in factors]
    unit([s[0] for s in single], [s[1] for s in single], 'normalize_factor')
    for (g, n), f in zip(single, factors):
        restores(g, n, f, 'normalize_factor')
    flipped, signs = utils.flip_factors(factors)
    rec.check(len(flipped) == len(signs) == len(factors), 'flip_factors: number of matrices', **info)
    for g, s, f, expected in zip(flipped, signs, factors, reference):
        s = np.asarray(s)
        rec.check(s.shape == (f.shape[1],) and np.all(np.abs(s[expected > 0]) == 1), 'flip_factors: signs are not +1 or -1', signs=s, **info)
        rec.check(exactly(np.asarray(g)*s, f), 'flip_factors does not restore the original', got=np.asarray(g)*s, signs=s, **info)
    prepared, signs, norms = utils.prepare_for_comparison(factors)
    unit(prepared, norms, 'prepare_for_comparison')
    for g, s, n, f, expected in zip(prepared, signs, norms, factors, reference):
        s = np.asarray(s)
        rec.check(np.all(np.abs(s.ravel()[expected > 0]) == 1), 'prepare_for_comparison: signs are not +1 or -1', signs=s, **info)
        restores(g, s*n, f, 'prepare_for_comparison')
    rec.check(fingerprint(*factors) == before, 'the arguments were modified', **info)
    rec.evaluated(factors, n=4)


def columns(job, rec):
    n, rank = job['shape']
    others = [np.array([[1.0], [-2.0]]).repeat(rank, axis=1), np.zeros((2, rank)), np.array([[0.0], [-1.0], [1.0]]).repeat(rank, axis=1)]
    for k, entries in enumerate(itertools.product((-1.0, 0.0, 1.0, 2.0), repeat=n*rank)):
        if k % job['of'] != job['part']:
            continue
        f = np.array(entries).reshape(n, rank)
        judge_columns(rec, [f])
        judge_columns(rec, [f, others[k % 3]])
        judge_columns(rec, [others[k % 3], -f, 7*f])
        judge_columns(rec, [(50*f).astype(('i1', 'i2', 'i8', '>i4')[k % 4]), others[k % 3].astype(int), f], type=('i1', 'i2', 'i8', '>i4')[k % 4])
    rec.sample({'shape': [n, rank]})


def lists(job, rec):
    rank = job['rank']
    for n in range(60):
        r = rng('lists', rank, job['seed'], n)
        for modes in (1, 2, 3, 4):
            factors = [r.standard_normal((s, rank))*10.0**r.randint(-2, 4) for s in (3, 1, 4, 2)[:modes]]
            for layout in LAYOUTS:
                judge_columns(rec, [with_layout(f, layout) for f in factors], layout=layout)
    rec.sample({'rank': rank})


# ---------------------------------------------------------------- permuting

def permute(job, rec):
    rank = job['rank']
    r = rng('permute', rank, job['seed'])
    for sizes in ((3,), (2, 4), (3, 1, 2), (2, 2, 2, 3)):
        factors = [r.standard_normal((s, rank)) for s in sizes]
        weights = r.standard_normal(rank)
        X = kruskal_ref(factors, weights)
        for p in itertools.permutations(range(rank)):
            for form in (p, list(p), np.array(p)):
                for layout in LAYOUTS if rank <= 3 else LAYOUTS[:2]:
                    given = [with_layout(f, layout) for f in factors]
                    before = fingerprint(*given, weights)
                    got = utils.permute_factors(form, given)
                    rec.check(len(got) == len(factors) and all(exactly(g, np.stack([f[:, i] for i in p], axis=1)) for g, f in zip(got, factors)), 'permute_factors', permutation=form, sizes=sizes)
                    both, w = utils.permute_factors_and_weights(form, given, weights)
                    rec.check(all(exactly(g, np.stack([f[:, i] for i in p], axis=1)) for g, f in zip(both, factors)) and exactly(w, [weights[i] for i in p]), 'permute_factors_and_weights', permutation=form, sizes=sizes)
                    rec.check(close(kruskal_ref(both, w), X, rtol=1e-11), 'permuting changes the tensor', permutation=form, sizes=sizes)
                    rec.check(fingerprint(*given, weights) == before, 'the arguments were modified', permutation=form)
                    # the results do not share memory with the arguments in a way that one changes the other
                    inverse = np.argsort(p)
                    back, v = utils.permute_factors_and_weights(tuple(int(i) for i in inverse), both, w)
                    rec.check(all(exactly(a, b) for a, b in zip(back, factors)) and exactly(v, weights), 'permuting back', permutation=form)
                    for g in (*got, *both, w):
                        if isinstance(g, np.ndarray) and g.flags.writeable:
                            g *= 2
                    rec.check(fingerprint(*given, weights) == before, 'the result shares memory with the arguments', permutation=form)
                    rec.evaluated((sizes, form, layout), n=3)
    rec.sample({'rank': rank})


# ---------------------------------------------------------------- evolving tensors

SIGNFIX = 'signfix-typeerror'


def evolving(job, rec):
    """The sign fixing of evolving tensors must not change the tensor."""
    def attempt(name, fn, *args, **kwargs):
        try:
            return fn(*args, **kwargs)
        except TypeError as e:
            if 'data_driven' in str(e) or 'positional argument' in str(e):
                rec.finding(SIGNFIX, f'utils.{name} raises {e!r}', function=name)
                return None
            raise

    for n in range(5):
        r = rng('evolving signs', job['seed'], n)
        rank, I = 1 + n % 3, 3
        for slices in ((4, 4, 4), (4, 5, 3)):
            K = len(slices)
            A, C = r.standard_normal((I, rank)), r.standard_normal((K, rank))
            B = [r.standard_normal((j, rank)) for j in slices]
            X = [A @ np.diag(C[k]) @ B[k].T + 0.1*r.standard_normal((I, slices[k])) for k in range(K)]
            forms = {'I x J': X, 'J x I': [x.T for x in X]}
            results = []
            for orientation, data in forms.items():
                before = fingerprint(A, C, *B, *data)
                for data_driven in (True, False):
                    try:
                        got = attempt('signfix_evolving_factors', utils.signfix_evolving_factors, data, list(B), C.copy(), data_driven=data_driven)
                    except (ValueError, np.linalg.LinAlgError):
                        continue   # data in the other orientation
                    if got is not None:
                        results.append(([np.asarray(b) for b in got[0]], np.asarray(got[1])))
                rec.check(fingerprint(A, C, *B, *data) == before, 'sign fixing modifies its arguments')
                tensor = EvolvingTensor(A, B, C, warning=False)
                try:
                    fixed = attempt('fix_signs_evolving_tensor', utils.fix_signs_evolving_tensor, tensor, data)
                except (ValueError, np.linalg.LinAlgError):
                    fixed = None
                if fixed is not None:
                    results.append(([np.asarray(b) for b in fixed.B], np.asarray(fixed.C)))
                rec.evaluated((n, slices, orientation), n=3)
            for Bs, Cs in results:
                rec.check(all(close(A @ np.diag(Cs[k]) @ Bs[k].T, A @ np.diag(C[k]) @ B[k].T, rtol=1e-12) for k in range(K)), 'sign fixing changes the evolving tensor', slices=slices)
        D, E = r.standard_normal((I, rank)), r.standard_normal((4, rank))
        X = D @ E.T
        for data_driven in (True, False):
            got = attempt('signfix_normal_factors', utils.signfix_normal_factors, X, D, E, data_driven)
            if got is not None:
                rec.check(close(got[0] @ got[1].T, X, rtol=1e-12), 'sign fixing changes the product of the factors')
            rec.evaluated((n, data_driven))
    rec.sample({'kind': 'evolving'})
