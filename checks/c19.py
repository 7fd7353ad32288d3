"""C19: the factor match score finds the best matching and has the right invariances."""
import itertools

import numpy as np
from tenkit import metrics
from tenkit.decomposition import EvolvingTensor, KruskalTensor, Parafac2Tensor
from mc.util import raises, fingerprint, rng

ID = 'C19'
LEVEL = 'exploration'
RULE = ('all pairs of models of rank 2 with two modes whose columns come from a set of 4 integer vectors (65 536 pairs); all models of rank 3 with columns from a set of 3 against '
        '27 (thorough 162) reference models; rank 1, rank 4 and more estimated than true components for families of integer, near-tied, collinear and random models with 1..4 modes; 5 and 6 components and up to 12 estimated ones; all '
        'permutations, all sign flips and a set of rescalings of a model; Kruskal tensors with all weight vectors from {-2, 1/2, 1, 3}^R, evolving and PARAFAC2 '
        'tensors with equal and irregular slices; every penalty and reduction, against a reference that enumerates the assignments')
ASSUMPTIONS = ['the columns are not zero and their norms far from the smallest numbers', 'there are at least as many estimated as true components']
TOL = 1e-8

COLUMNS2 = [np.array(c, dtype=float) for c in ((1, 0), (1, 2), (-1, 1), (3, 1))]
COLUMNS3 = [np.array(c, dtype=float) for c in ((0, 1, -1), (2, 1, 0), (1, 1, 1), (-1, 0, 2))]


def jobs(tier, seed):
    n = 16
    out = [{'kind': 'rank 2', 'part': k, 'of': n} for k in range(n)]
    out += [{'kind': 'rank 3', 'part': k, 'of': n, 'step': 27 if tier == 'quick' else 4} for k in range(n)]
    out += [{'kind': 'families', 'rank': r, 'modes': m, 'seed': seed, 'n': 1 if r == 4 and tier == 'quick' else 2 if tier == 'quick' else 20} for r in (1, 2, 3, 4) for m in (1, 2, 3, 4)]
    out += [{'kind': 'many', 'true': t, 'estimated': e, 'modes': m, 'seed': seed, 'n': 2 if tier == 'quick' else 10}
            for t, e in ((5, 5), (6, 6), (4, 6), (3, 7), (5, 6), (2, 9), (1, 12)) for m in (1, 2, 3)]
    out += [{'kind': 'kruskal', 'rank': r, 'modes': m, 'seed': seed} for r in (1, 2, 3) for m in (2, 3, 4)]
    out += [{'kind': 'evolving', 'rank': r, 'seed': seed, 'part': p} for r in (1, 2, 3, 4) for p in range(3)]
    return out


def run(job, rec):
    {'rank 2': pairs, 'rank 3': triples, 'families': families, 'kruskal': kruskal, 'evolving': evolving, 'many': many}[job['kind']](job, rec)


# ---------------------------------------------------------------- reference

def component_scores(true, estimated, weight_penalty):
    """score[r, s] of true component r and estimated component s."""
    R, S = true[0].shape[1], estimated[0].shape[1]
    out = np.empty((R, S))
    for r in range(R):
        for s in range(S):
            value, w1, w2 = 1.0, 1.0, 1.0
            for a, b in zip(true, estimated):
                n1, n2 = np.sqrt(np.dot(a[:, r], a[:, r])), np.sqrt(np.dot(b[:, s], b[:, s]))
                value *= abs(np.dot(a[:, r], b[:, s]))/(n1*n2)
                w1, w2 = w1*n1, w2*n2
            if weight_penalty:
                value *= 1 - abs(w1 - w2)/max(w1, w2)
            out[r, s] = value
    return out


def assignments(scores, reduction):
    reduce = min if reduction == 'min' else lambda values: sum(values)/len(values)
    R, S = scores.shape
    return {p: reduce([scores[r, p[r]] for r in range(R)]) for p in itertools.permutations(range(S), R)}


def judge(rec, got, true, estimated, weight_penalty, reduction, message, **info):
    """Returned (score, permutation) against the reference; returns the score."""
    table = assignments(component_scores(true, estimated, weight_penalty), reduction)
    best = max(table.values())
    score, permutation = got
    info.update(true=[f.tolist() for f in true], estimated=[f.tolist() for f in estimated], weight_penalty=weight_penalty, reduction=reduction)
    rec.check(np.ndim(score) == 0 and abs(score - best) <= TOL, f'{message}: not the best score', got=score, best=best, **info)
    permutation = tuple(int(i) for i in permutation)
    rec.check(permutation in table, f'{message}: the permutation is not an assignment', permutation=permutation, **info)
    rec.check(abs(table[permutation] - best) <= TOL, f'{message}: the permutation does not attain the score', permutation=permutation, attains=table[permutation], best=best, **info)
    rec.check(-TOL <= score <= 1 + TOL, f'{message}: out of range', got=score, **info)
    return best


OPTIONS = [(w, r) for w in (True, False) for r in ('min', 'mean')]


def score_all(rec, true, estimated, message='factor match score', **info):
    before = fingerprint(*true, *estimated)
    out = []
    for w, r in OPTIONS:
        got = metrics.factor_match_score(true, estimated, weight_penalty=w, fms_reduction=r)
        out.append(judge(rec, got, true, estimated, w, r, message, **info))
    rec.check(fingerprint(*true, *estimated) == before, f'{message}: the arguments were modified', **info)
    rec.evaluated((true, estimated), n=len(OPTIONS))
    if len(true) == 3:
        # the variant for evolving factors compares the modes without evolution
        for w, r in OPTIONS:
            got = metrics.factor_match_score_parafac2(true, estimated, weight_penalty=w, fms_reduction=r)
            judge(rec, got, true[::2], estimated[::2], w, r, 'score of the modes without evolution', **info)
        rec.evaluated(n=len(OPTIONS))
    return out


def separate_all(rec, true, estimated, **info):
    before = fingerprint(*true, *estimated)
    out = []
    for r in ('min', 'mean'):
        scores, permutations = metrics.separate_mode_factor_match_score(true, estimated, fms_reduction=r)
        rec.check(len(scores) == len(permutations) == len(true), 'separate scores: number of modes', got=len(scores), **info)
        for m in range(len(true)):
            out.append(judge(rec, (scores[m], permutations[m]), [true[m]], [estimated[m]], False, r, 'separate-mode score', mode=m, **info))
    rec.check(fingerprint(*true, *estimated) == before, 'separate scores: the arguments were modified', **info)
    rec.evaluated()
    return out


# ---------------------------------------------------------------- enumerations

def all_models(rank, columns):
    for picks in itertools.product(*[itertools.product(range(len(c)), repeat=rank) for c in columns]):
        yield [np.stack([c[i] for i in pick], axis=1) for c, pick in zip(columns, picks)]


def pairs(job, rec):
    models = list(all_models(2, (COLUMNS2, COLUMNS3)))
    for k, true in enumerate(models):
        if k % job['of'] != job['part']:
            continue
        for j, estimated in enumerate(models):
            # all options for every pair, spread over the orders of the arguments
            w, r = OPTIONS[(k + j) % 4] if k != j else OPTIONS[0]
            for w, r in ((w, r), (not w, r)) if k != j else OPTIONS:
                got = metrics.factor_match_score(true, estimated, weight_penalty=w, fms_reduction=r)
                judge(rec, got, true, estimated, w, r, 'factor match score')
                rec.evaluated((k, j, w, r))
            if k == j:
                for w, r in OPTIONS:
                    rec.check(abs(metrics.factor_match_score(true, estimated, weight_penalty=w, fms_reduction=r)[0] - 1) <= TOL, 'a model does not match itself', model=true)
        for estimated in models[::16]:
            separate_all(rec, true, estimated)
    for reduction in ('max', 'Min', '', None, 'median', 'sum'):
        for function in (metrics.factor_match_score, metrics.separate_mode_factor_match_score):
            rec.check(isinstance(raises(function, models[1], models[2], fms_reduction=reduction), ValueError), 'an unknown reduction is not refused', reduction=reduction, function=function.__name__)
        rec.check(isinstance(raises(metrics.factor_match_score_parafac2, [models[1][0]]*3, [models[2][0]]*3, fms_reduction=reduction), ValueError), 'an unknown reduction is not refused', reduction=reduction)
    rec.sample({'rank': 2, 'models': len(models)})


def triples(job, rec):
    models = list(all_models(3, (COLUMNS2[:3], COLUMNS3[1:])))
    trues = models[::job['step']]
    for k, estimated in enumerate(models):
        if k % job['of'] != job['part']:
            continue
        for j, true in enumerate(trues):
            w, r = OPTIONS[(k//job['of'] + j) % 4]
            got = metrics.factor_match_score(true, estimated, weight_penalty=w, fms_reduction=r)
            judge(rec, got, true, estimated, w, r, 'factor match score')
            rec.evaluated((k, j))
    rec.sample({'rank': 3, 'models': len(models), 'trues': len(trues)})


def family(kind, rank, sizes, key):
    r = rng('fms', kind, rank, sizes, key)
    if kind == 'normal':
        return [r.standard_normal((s, rank)) for s in sizes]
    if kind == 'nonneg':
        return [r.random_sample((s, rank)) + 0.05 for s in sizes]
    if kind == 'integer':
        out = [r.randint(-3, 4, size=(s, rank)).astype(float) for s in sizes]
        for f in out:
            f[0, np.all(f == 0, axis=0)] = 1
        return out
    if kind == 'whole':   # of integer type
        return [f.astype(int) for f in family('integer', rank, sizes, key)]
    if kind == 'collinear':   # components that are nearly the same
        return [np.outer(r.standard_normal(s), np.ones(rank)) + 0.05*r.standard_normal((s, rank)) for s in sizes]
    if kind == 'scaled':
        return [r.standard_normal((s, rank))*10.0**r.randint(0, 5, size=rank) for s in sizes]
    raise ValueError(kind)


KINDS = ('normal', 'nonneg', 'integer', 'whole', 'collinear', 'scaled')


def families(job, rec):
    rank, modes = job['rank'], job['modes']
    sizes = (3, 2, 4, 3)[:modes]
    for kind in KINDS:
        for n in range(job['n']):
            true = family(kind, rank, sizes, (job['seed'], n))
            info = dict(kind=kind)
            self_score = score_all(rec, true, true, **info)
            rec.check(all(abs(s - 1) <= TOL for s in self_score), 'a model does not match itself', got=self_score, **info)
            for other_kind in ('normal', kind):
                near = [f + 0.1*g*np.max(np.abs(f)) for f, g in zip(true, family('normal', rank, sizes, n))]
                for estimated in (family(other_kind, rank, sizes, (job['seed'], n, 'estimated')), near):
                    invariances(rec, true, estimated, rank, n, **info)
                    invariances(rec, estimated, true, rank, n, **info)
            # more estimated than true components
            if rank < 4:
                for extra in (1, 2):
                    estimated = family(kind, rank + extra, sizes, (job['seed'], n, 'more'))
                    score_all(rec, true, estimated, **info)
                    separate_all(rec, true, estimated, **info)
                    # the true components among others
                    for where in itertools.permutations(range(rank + extra), rank):
                        hidden = [f.copy() for f in estimated]
                        for f, t in zip(hidden, true):
                            f[:, list(where)] = t
                        got = score_all(rec, true, hidden, **info)
                        rec.check(all(abs(s - 1) <= TOL for s in got), 'the true components are not found among others', got=got, where=where, **info)
    rec.sample({'rank': rank, 'modes': modes})


def many(job, rec):
    """More components."""
    R, S, modes = job['true'], job['estimated'], job['modes']
    sizes = (4, 3, 5)[:modes]
    for kind in KINDS:
        for n in range(job['n']):
            true, estimated = family(kind, R, sizes, (job['seed'], n)), family(kind, S, sizes, (job['seed'], n, 'other'))
            info = dict(kind=kind)
            score_all(rec, true, estimated, **info)
            separate_all(rec, true, estimated, **info)
            # the true components among others, in another order
            r = rng('many', R, S, kind, n, modes)
            where = r.permutation(S)[:R]
            for noise in (0, 0.05):
                hidden = [f.copy() for f in estimated]
                for f, t in zip(hidden, true):
                    f[:, where] = t + noise*np.max(np.abs(t))*r.standard_normal(t.shape)
                got = score_all(rec, true, hidden, **info)
                rec.check(noise > 0 or all(abs(s - 1) <= TOL for s in got), 'the true components are not found among others', got=got, where=where, **info)
    rec.sample({'true': R, 'estimated': S, 'modes': modes})


def invariances(rec, true, estimated, rank, n, **info):
    modes = len(true)
    expected = score_all(rec, true, estimated, **info)
    separate = separate_all(rec, true, estimated, **info)
    scale = max(1.0, *(abs(s) for s in expected))
    for p in itertools.permutations(range(rank)):
        p = list(p)
        permuted = [f[:, p] for f in estimated]
        for got in (score_all(rec, true, permuted, **info), score_all(rec, [f[:, p] for f in true], estimated, **info)):
            rec.check(np.max(np.abs(np.subtract(got, expected))) <= TOL*scale, 'the score depends on the order of the components', permutation=p, got=got, expected=expected, **info)
        got = separate_all(rec, true, permuted, **info)
        rec.check(np.max(np.abs(np.subtract(got, separate))) <= TOL, 'the separate-mode score depends on the order of the components', permutation=p, **info)
    flips = list(itertools.product((1, -1), repeat=modes*rank))
    for k in range(0, len(flips), max(1, len(flips)//16)):
        signs = np.array(flips[k]).reshape(modes, rank)
        flipped = [f*s for f, s in zip(estimated, signs)]
        for w, r in OPTIONS:
            got = metrics.factor_match_score(true, flipped, weight_penalty=w, fms_reduction=r)[0]
            rec.check(abs(got - expected[OPTIONS.index((w, r))]) <= TOL, 'the score depends on signs', signs=signs, got=got, **info)
        got = [s for r in ('min', 'mean') for s in metrics.separate_mode_factor_match_score(true, flipped, fms_reduction=r)[0]]
        rec.check(np.max(np.abs(np.subtract(got, separate))) <= TOL, 'the separate-mode score depends on signs', signs=signs, **info)
        rec.evaluated()
    r = rng('scales', n, rank, modes)
    for _ in range(4):
        scales = 10.0**r.randint(-1, 5, size=(modes, rank))*r.choice([-1, 1], size=(modes, rank))
        scaled = [f*s for f, s in zip(estimated, scales)]
        for red in ('min', 'mean'):
            got = metrics.factor_match_score(true, scaled, weight_penalty=False, fms_reduction=red)[0]
            rec.check(abs(got - expected[OPTIONS.index((False, red))]) <= TOL, 'the score depends on scales', scales=scales, got=got, **info)
            got = metrics.separate_mode_factor_match_score(true, scaled, fms_reduction=red)[0]
            want = separate[:modes] if red == 'min' else separate[modes:]
            rec.check(np.max(np.abs(np.subtract(got, want))) <= TOL, 'the separate-mode score depends on scales', scales=scales, **info)
        rec.evaluated()


# ---------------------------------------------------------------- methods of the tensors

def method(tensor, *names):
    for name in names:
        if hasattr(tensor, name):
            return getattr(tensor, name)
    raise AttributeError(names)


def kruskal(job, rec):
    rank, modes = job['rank'], job['modes']
    sizes = (3, 2, 4, 3)[:modes]
    weights = list(itertools.product((-2.0, 0.5, 1.0, 3.0), repeat=rank))
    for kind in KINDS:
        f1, f2 = (family(kind, rank, sizes, (job['seed'], i)) for i in (0, 1))
        near = [f + 0.05*np.max(np.abs(f))*g for f, g in zip(f1, f2)]
        for w1 in weights:
            for w2 in weights if rank < 3 else weights[::7] + [w1]:
                for other in (f2, near):
                    a, b = KruskalTensor([f.copy() for f in f1], np.array(w1)), KruskalTensor([f.copy() for f in other], np.array(w2))
                    before = fingerprint(*a.factor_matrices, a.weights, *b.factor_matrices, b.weights)
                    info = dict(kind=kind, weights=[w1, w2])
                    true = [f1[0]*np.array(w1)] + f1[1:]
                    estimated = [other[0]*np.array(w2)] + other[1:]
                    for w, r in OPTIONS:
                        judge(rec, a.factor_match_score(b, weight_penalty=w, fms_reduction=r), true, estimated, w, r, 'Kruskal score', **info)
                    for r in ('min', 'mean'):
                        scores, perms = method(a, 'seperate_mode_factor_match_score', 'separate_mode_factor_match_score')(b, fms_reduction=r)
                        for m in range(modes):
                            judge(rec, (scores[m], perms[m]), [f1[m]], [other[m]], False, r, 'Kruskal separate-mode score', mode=m, **info)
                    rec.check(fingerprint(*a.factor_matrices, a.weights, *b.factor_matrices, b.weights) == before, 'the tensors were modified', **info)
                    rec.evaluated((kind, w1, w2, other is near), n=6)
            # the same tensor with the weights elsewhere
            a = KruskalTensor([f.copy() for f in f1], np.array(w1))
            for m in range(modes):
                b = KruskalTensor([f*np.array(w1) if i == m else f.copy() for i, f in enumerate(f1)])
                for w, r in OPTIONS:
                    for x, y in ((a, b), (b, a), (a, a)):
                        got = x.factor_match_score(y, weight_penalty=w, fms_reduction=r)[0]
                        rec.check(abs(got - 1) <= TOL, 'the same Kruskal tensor with its weights in a factor does not match', got=got, weights=w1, mode=m, kind=kind)
            b = KruskalTensor([f.copy() for f in f1], np.array(w1)).normalize_components()
            for w, r in OPTIONS:
                got = a.factor_match_score(b, weight_penalty=w, fms_reduction=r)[0]
                rec.check(abs(got - 1) <= TOL, 'a normalised Kruskal tensor does not match itself', got=got, weights=w1, kind=kind)
            rec.evaluated()
    rec.sample({'rank': rank, 'modes': modes, 'weights': len(weights)})


def evolving(job, rec):
    rank = job['rank']
    slices = [(4, 4, 4), (5, 4, 6), (4, 7)][job['part']]
    I, K = 3, len(slices)
    for kind in KINDS:
        for n in range(6):
            r = rng('evolving', rank, slices, kind, job['seed'], n)

            def pf2(key):
                A, F, C = family(kind, rank, (I, rank, K), (key, n, job['seed']))
                P = [np.linalg.qr(r.standard_normal((j, rank)))[0] for j in slices]
                return Parafac2Tensor(A, F, C, P, warning=False)

            def evo(key):
                out = family(kind, rank, (I, K, *slices), (key, n, job['seed']))
                return EvolvingTensor(out[0], out[2:], out[1], warning=False)

            p, q, e, f = pf2(1), pf2(2), evo(1), evo(2)
            near = Parafac2Tensor(p.A + 0.1*q.A, p.blueprint_B.copy(), p.C.copy(), [x.copy() for x in p.projection_matrices])
            groups = [(p, p), (p, q), (q, p), (e, f), (f, e), (e, e), (p, e), (e, q), (p, near)]
            if len(set(slices)) == 1:
                k = KruskalTensor(family(kind, rank, (I, slices[0], K), (3, n)), r.random_sample(rank) + 0.2)
                k2 = EvolvingTensor.from_kruskaltensor(k)
                groups += [(k2, e), (e, k2), (k2, k2)]
            for a, b in groups:
                fa = [np.asarray(a.A), np.concatenate([np.asarray(x) for x in a.B]), np.asarray(a.C)]
                fb = [np.asarray(b.A), np.concatenate([np.asarray(x) for x in b.B]), np.asarray(b.C)]
                before = fingerprint(*fa, *fb)
                info = dict(kind=kind, slices=slices, types=[type(a).__name__, type(b).__name__])
                for w, red in OPTIONS:
                    best = judge(rec, a.factor_match_score(b, weight_penalty=w, fms_reduction=red), fa, fb, w, red, 'evolving score', **info)
                    rec.check(a is not b or abs(best - 1) <= TOL, 'a model does not match itself', **info)
                    # components of the other model in another order, with other signs
                    for perm in itertools.permutations(range(rank)) if rank < 4 else [(3, 1, 0, 2)]:
                        perm = list(perm)
                        s = np.where(np.arange(rank) % 2, -1, 1)
                        c = EvolvingTensor(b.A[:, perm]*s, [np.asarray(x)[:, perm] for x in b.B], b.C[:, perm]*s, warning=False)
                        if isinstance(a, Parafac2Tensor) and isinstance(b, Parafac2Tensor):
                            c = Parafac2Tensor(b.A[:, perm]*s, b.blueprint_B[:, perm]*s, b.C[:, perm], b.projection_matrices, warning=False)
                        got = a.factor_match_score(c, weight_penalty=w, fms_reduction=red)[0]
                        rec.check(abs(got - best) <= TOL, 'the score depends on the order or signs of the components', got=got, expected=best, **info)
                for red in ('min', 'mean'):
                    scores, perms = method(a, 'separate_mode_factor_match_score', 'seperate_mode_factor_match_score')(b, fms_reduction=red)
                    for m in range(3):
                        judge(rec, (scores[m], perms[m]), [fa[m]], [fb[m]], False, red, 'evolving separate-mode score', mode=m, **info)
                if type(a) is EvolvingTensor and b is a and len(set(slices)) == 1:
                    scores, perms = method(a, 'separate_mode_factor_match_score')(k)
                    fk = [k.factor_matrices[0]*k.weights, np.tile(k.factor_matrices[1], (K, 1)), k.factor_matrices[2]]
                    for m in range(3):
                        judge(rec, (scores[m], perms[m]), [fa[m]], [fk[m]], False, 'min', 'separate-mode score with a Kruskal tensor', mode=m, **info)
                after = fingerprint(np.asarray(a.A), np.concatenate([np.asarray(x) for x in a.B]), np.asarray(a.C), np.asarray(b.A), np.concatenate([np.asarray(x) for x in b.B]), np.asarray(b.C))
                rec.check(after == before, 'the tensors were modified', **info)
                rec.evaluated((kind, n, slices, [type(a).__name__, type(b).__name__]), n=6)
    rec.sample({'rank': rank, 'slices': slices})
