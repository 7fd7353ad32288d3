"""C18: fits are deterministic and isolated from each other and from their inputs."""
import itertools
import os

import numpy as np
from tenkit.decomposition import CP_ALS, Parafac2_ALS
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.logging import LossLogger
from mc import models
from mc.fits import Recorder, clone, distance, identical, model, snapshot
from mc.util import LAYOUTS, fingerprint, merges, rng, scratch, with_layout

ID = 'C18'
LEVEL = 'model_checking'
RULE = ('all interleavings of two histories of 3 operations (thorough: also three histories) of {fit, fit_transform, continue, refit on other data, load, aborted fit} on two decomposers, for '
        'all pairs of 16 configurations of CP and PARAFAC2 and 4 pairs of histories, sharing data and option lists; all sequences of up to 2 (thorough 3) '
        'earlier uses (other data, shapes, orders, starts, tolerances reached, fits aborted at any iteration, refused starts, loads) of a decomposer before a '
        'fit, against a fresh one; all memory layouts of the data (and of the slices of PARAFAC2 data), and lists against tensors; ten number types (integers of all sizes, single precision, byte orders) holding the same values, for every mixture of a first slice or matrix with the others; all sequences of up to 2 (thorough 3) changes of the data, or of the files to start from, between fits of one decomposer to the very same objects; all sequences of 2 (thorough 3) changes of the configuration between fits and continued fits; fits of 130 iterations alone, after fits of other lengths, with another state of the random generator, and of two decomposers in turn')
ASSUMPTIONS = ['a budget given to one call stays in force, so every call gives one', 'a precomputed start is taken over by the fit and updated in place']
TOL = 1e-8


def jobs(tier, seed):
    n = len(models.CONFIGS)
    out = [{'kind': 'interleave', 'configs': [i, j], 'seed': seed} for i in range(n) for j in range(i, n)]
    if tier == 'thorough':
        out += [{'kind': 'interleave', 'configs': [i, j, k], 'seed': seed} for i, j, k in itertools.combinations_with_replacement((0, 1, 3, 7, 8, 9), 3)]
    out += [{'kind': 'reuse', 'config': i, 'tolerance': tol, 'depth': 3 if tier == 'thorough' else 2, 'seed': seed} for i in range(n) for tol in (-1, 0.05)]
    out += [{'kind': 'layouts', 'config': i, 'seed': seed} for i in range(n)]
    out += [{'kind': 'cmtf', 'seed': seed}]
    out += [{'kind': 'defaults', 'config': i, 'seed': seed} for i in range(n)]
    out += [{'kind': 'numbers', 'config': i, 'seed': seed} for i in range(n)]
    out += [{'kind': 'cmtf numbers', 'seed': seed}]
    out += [{'kind': 'changed', 'config': i, 'depth': 3 if tier == 'thorough' else 2, 'seed': seed} for i in range(n)]
    out += [{'kind': 'reconfigured', 'config': i, 'depth': 3 if tier == 'thorough' else 2, 'seed': seed} for i in range(n)]
    out += [{'kind': 'many iterations', 'config': i, 'seed': seed} for i in range(n + 1)]
    out += [{'kind': 'cmtf changed', 'depth': 3 if tier == 'thorough' else 2, 'seed': seed}]
    return out


def run(job, rec):
    with scratch() as tmp:
        {'interleave': interleave, 'reuse': reuse, 'layouts': layouts, 'cmtf': cmtf, 'defaults': defaults,
         'numbers': numbers, 'cmtf numbers': cmtf_numbers, 'changed': changed, 'reconfigured': reconfigured, 'many iterations': many_iterations, 'cmtf changed': cmtf_changed}[job['kind']](job, rec, tmp)


# ---------------------------------------------------------------- interleavings

SCRIPTS = [
    ('fit', 'continue', 'refit'),
    ('fit_transform', 'other', 'continue'),
    ('fit', 'load', 'continue'),
    ('abort', 'fit_transform', 'svd'),
]
PAIRS = [(0, 0), (0, 1), (2, 3), (1, 2)]


class Abort(Exception):
    pass


class Bomb:
    """A logger that aborts the fit it is called from."""

    def __init__(self, after):
        self.after = after

    def log(self, decomposer):
        if self.after == 0:
            raise Abort
        self.after -= 1

    def write_to_hdf5_group(self, group):
        pass


class Actor:
    def __init__(self, config, options, datas, path):
        self.log = Recorder(metrics=False)
        self.config, self.datas, self.path = config, datas, path
        self.dec = models.make(config, loggers=[self.log, LossLogger()], **options)
        self.returned = []
        self.current = None

    def step(self, op, number):
        np.random.seed(100*number + 17)
        dec, X = self.dec, self.datas
        keep = self.current
        if op == 'fit':
            dec.fit(X[0], max_its=2)
        elif op == 'fit_transform':
            d = dec.fit_transform(X[0], max_its=3)
            assert d is dec.decomposition or identical(model(d), model(dec.decomposition))
        elif op == 'refit':
            dec.fit(X[0], max_its=3)
        elif op == 'other':
            dec.fit(X[1], max_its=2)
        elif op == 'continue':
            dec.continue_fit(max_its=dec.current_iteration + 2)
        elif op == 'load':
            dec.load_checkpoint(self.path)
        elif op == 'svd':
            dec.init = 'svd' if self.config['rank'] <= min(self.config.get('shape', [9])) else 'random'
            try:
                dec.fit(X[1], max_its=1)
            finally:
                dec.init = 'random'
        elif op == 'abort':
            dec.loggers.append(Bomb(1))
            try:
                dec.fit(X[1], max_its=4)
            except Abort:
                pass
            dec.loggers.pop()
        if op != 'continue':
            # The decomposition of an earlier fit must stay what it was
            if keep is not None:
                self.returned.append((keep, self.current_model))
        self.current = dec.decomposition
        self.current_model = model(self.current)

    def state(self):
        return snapshot(self.dec)


def input_state(datas, options):
    # lists have to keep their very elements
    return [(fingerprint(*d), [id(x) for x in d]) if isinstance(d, list) else fingerprint(d) for d in datas], repr(options)


def options_of(config):
    return {'non_negativity_constraints': None if config.get('nn') is None else list(config['nn']),
            'ridge_penalties': None if config.get('ridge') is None else list(config['ridge']),
            'orthonormality_constraints': None if config.get('orth') is None else list(config['orth'])}


def interleave(job, rec, tmp):
    configs = [models.CONFIGS[i] for i in job['configs']]
    datas, options, paths = [], [], []
    for i, config in zip(job['configs'], configs):
        if i in job['configs'][:len(datas)]:   # the same configuration shares all inputs
            k = job['configs'].index(i)
            datas.append(datas[k])
            options.append(options[k])
            paths.append(paths[k])
            continue
        datas.append([models.give(config, models.data(config, job['seed'], w)) for w in (0, 1)])
        options.append(options_of(config))
        path = os.path.join(tmp, f'{i}.h5')
        np.random.seed(2)
        models.make(config, checkpoint_path=path).fit(datas[-1][0], max_its=2)
        paths.append(path)
    inputs = [input_state(d, o) for d, o in zip(datas, options)]
    pairs = PAIRS if len(configs) == 2 else [(0, 1, 2)]
    for choice in pairs:
        scripts = [SCRIPTS[c] for c in choice]
        alone = []
        for k, script in enumerate(scripts):
            actor = Actor(configs[k], options[k], datas[k], paths[k])
            states = []
            for n, op in enumerate(script):
                actor.step(op, n + 10*k)
                states.append(actor.state())
            alone.append((states, actor.log.states))
        tagged = [[(k, n, op) for n, op in enumerate(script)] for k, script in enumerate(scripts)]
        orders = merges(*tagged[:2])
        if len(tagged) == 3:
            orders = [o for ab in orders for o in merges(ab, tuple(tagged[2][:2]))]
        for order in orders:
            info = dict(models=[c['name'] for c in configs], order=order)
            actors = [Actor(c, o, d, p) for c, o, d, p in zip(configs, options, datas, paths)]
            for k, n, op in order:
                others = [(a, identical_key(a)) for i, a in enumerate(actors) if i != k and a.current is not None]
                actors[k].step(op, n + 10*k)
                got, expected = actors[k].state(), alone[k][0][n]
                compare(rec, got, expected, 'an operation gives another result when it is interleaved with others', operation=[k, n, op], **info)
                for a, key in others:
                    rec.check(identical_key(a) == key, 'an operation changed another decomposer', operation=[k, n, op], **info)
                rec.state((job['configs'], choice, order[:order.index((k, n, op)) + 1]))
                rec.transition()
            for k, actor in enumerate(actors):
                done = max((n for i, n, _ in order if i == k), default=-1) + 1
                if done == len(scripts[k]):
                    rec.check(len(actor.log.states) == len(alone[k][1]) and all(distance(a, b) <= TOL and a['it'] == b['it'] for a, b in zip(actor.log.states, alone[k][1])),
                              'the iterations differ when interleaved', actor=k, **info)
                for d, m in actor.returned:
                    rec.check(identical(model(d), m), 'the decomposition of an earlier fit was changed', actor=k, **info)
            rec.trace()
        rec.check([input_state(d, o) for d, o in zip(datas, options)] == inputs, 'fitting changed the data or the options', models=[c['name'] for c in configs], scripts=scripts)
    rec.sample({'models': [c['name'] for c in configs], 'scripts': [SCRIPTS[i] for i in pairs[-1]]})


def identical_key(actor):
    m = model(actor.dec.decomposition)
    return fingerprint(*(m['factors'] + [m['weights']] if 'factors' in m else [m['A'], m['F'], m['C'], *m['P']])), actor.dec.current_iteration, len(actor.log.states)


def compare(rec, got, expected, message, **info):
    d = distance(got, expected)
    rec.check(d <= TOL and got['it'] == expected['it'], message, distance=d, iterations=[got['it'], expected['it']], **info)
    for name in ('SSE', 'loss', 'MSE', 'RMSE', 'explained_variance'):
        rec.check(abs(got[name] - expected[name]) <= 1e-7*(1 + abs(expected[name])), f'{message}: {name}', got=got[name], expected=expected[name], **info)


# ---------------------------------------------------------------- earlier uses of the same decomposer

def reuse(job, rec, tmp):
    config = models.CONFIGS[job['config']]
    tol = job['tolerance']
    free = not any(config.get(k) for k in ('nn', 'ridge', 'orth'))
    X = models.give(config, models.data(config, job['seed'], 0))
    other = models.give(config, models.data(config, job['seed'], 1))
    path = os.path.join(tmp, 'a.h5')
    np.random.seed(2)
    models.make(config, checkpoint_path=path).fit(X, max_its=3)
    r = rng('reuse', config['name'], job['seed'])
    rank = config['rank']
    if config['model'] == 'cp':
        shape = config['shape']
        bigger = r.random_sample([s + 1 for s in shape])
        higher = r.random_sample(list(shape) + [2])
        lower = r.random_sample(list(shape)[:-1]) if len(shape) > 2 else None
        start = CP_ALS(rank).DecompositionType.random_init([s + 2 for s in shape], rank)
    else:
        I, J = config['I'], config['J']
        bigger = [r.random_sample((I + 1, j + 1)) for j in J + [4]]
        higher = r.random_sample((I, 5, 3)) if config['name'] != 'pf2 ridge' else r.random_sample((I, 4, 6))   # a tensor
        lower = [r.random_sample((I, j)) for j in J[:-1]]
        start = Parafac2_ALS(rank).DecompositionType.random_init([I + 1, J, len(J)], rank)

    def abort(dec, its, data):
        dec.loggers.append(Bomb(its))
        try:
            dec.fit(data, max_its=6)
        except Abort:
            pass
        dec.loggers.pop()

    def refused(dec):
        dec.init = 'precomputed'
        try:
            dec.fit(X, max_its=3, initial_decomposition=start)
        except Exception:
            pass
        dec.init = 'random'

    def load(dec):
        if hasattr(dec, 'X'):
            try:
                dec.load_checkpoint(path)
            except ValueError:
                pass   # the data in use have another size

    def started(dec, data, init):
        dec.init = init
        try:
            dec.fit(data, max_its=2, **({'initial_decomposition': path} if init == 'from_checkpoint' else {}))
        except ValueError:
            pass   # rank too large for this start
        dec.init = 'random'

    def converge(dec):
        old, dec.convergence_tol = dec.convergence_tol, 0.3
        dec.fit(other, max_its=8)
        dec.convergence_tol = old

    def go_on(dec):
        if hasattr(dec, 'decomposition'):
            dec.continue_fit(max_its=dec.current_iteration + 2)

    def normalise(dec):
        if hasattr(getattr(dec, 'decomposition', None), 'normalize_components'):
            dec.decomposition.normalize_components()

    uses = {
        'same': lambda dec: dec.fit(X, max_its=3), 'other': lambda dec: dec.fit(other, max_its=2), 'no iterations': lambda dec: dec.fit(other, max_its=0),
        'bigger': lambda dec: dec.fit(bigger, max_its=2), 'aborted 0': lambda dec: abort(dec, 0, other), 'aborted 2': lambda dec: abort(dec, 2, bigger), 'refused': refused,
        'load': load, 'svd': lambda dec: started(dec, X, 'svd'), 'checkpoint': lambda dec: started(dec, X, 'from_checkpoint'), 'converge': converge,
        'continue': go_on, 'normalise': normalise,
    }
    if free or config['model'] == 'pf2':
        uses['higher'] = lambda dec: dec.fit(higher, max_its=2)
        if lower is not None:
            uses['lower'] = lambda dec: dec.fit(lower, max_its=2)

    def final(dec, log):
        np.random.seed(31)
        del log.states[:]
        d = dec.fit_transform(X, max_its=5)
        states = [*log.states, snapshot(dec)]
        dec.continue_fit(max_its=7)
        return d, states + [snapshot(dec)], len(log.states)

    options = {'convergence_tol': tol, 'rel_loss_tol': tol/10} if config['model'] == 'cp' else {'convergence_tol': tol}
    log = Recorder()
    _, expected, n = final(models.make(config, loggers=[log], **options), log)
    inputs = input_state([X, other], None)
    for depth in range(1, job['depth'] + 1):
        for sequence in itertools.product(uses, repeat=depth):
            log = Recorder()
            dec = models.make(config, loggers=[log], **options)
            info = dict(model=config['name'], tolerance=tol, uses=sequence)
            for k, use in enumerate(sequence):
                np.random.seed(k)
                before = getattr(dec, 'decomposition', None)
                m = None if before is None else model(before)
                uses[use](dec)
                if m is not None and use not in ('continue', 'normalise'):
                    rec.check(identical(model(before), m), 'the decomposition of an earlier fit was changed', use=use, **info)
            before = getattr(dec, 'decomposition', None)
            m = None if before is None else model(before)
            _, got, count = final(dec, log)
            rec.check(len(got) == len(expected) and count == n, 'an earlier use changes how many iterations are run', got=len(got), expected=len(expected), **info)
            for a, b in zip(got, expected):
                compare(rec, a, b, 'an earlier use changes a fit', **info)
            if m is not None:
                rec.check(identical(model(before), m), 'the decomposition of an earlier fit was changed', use='fit', **info)
            rec.state((config['name'], tol, sequence))
            rec.transition(depth + 2)
            rec.trace()
    rec.check(input_state([X, other], None) == inputs, 'fitting changed the data', model=config['name'])
    rec.sample({'config': config['name'], 'uses': sorted(uses), 'depth': job['depth']})


# ---------------------------------------------------------------- default options

def defaults(job, rec, tmp):
    """What is added to one decomposer that was made with defaults does not reach another one."""
    config = models.CONFIGS[job['config']]
    X = models.give(config, models.data(config, job['seed']))
    n = len(config['shape']) if config['model'] == 'cp' else 3
    plain = {k: v for k, v in config.items() if k not in ('nn', 'ridge', 'orth')}
    explicit = {'given': dict(loggers=None), 'default': {}}

    def fit(dec):
        np.random.seed(4)
        dec.fit(X, max_its=2)
        return snapshot(dec)

    expected = fit(models.make(plain))
    for first, second in itertools.product(explicit, repeat=2):
        for change in ('loggers', 'non_negativity_constraints', 'ridge_penalties', 'orthonormality_constraints', 'checkpoint_path', 'init', 'convergence_tol', 'max_its'):
            for made in ('before', 'after'):
                a = models.make(plain, **explicit[first])
                b = models.make(plain, **explicit[second]) if made == 'before' else None
                log = Recorder(metrics=False)
                path = os.path.join(tmp, 'x.h5')
                if change == 'loggers':
                    a.loggers.append(log)
                else:
                    setattr(a, change, {'non_negativity_constraints': [True]*n, 'ridge_penalties': [0.5]*n, 'orthonormality_constraints': None,
                                        'checkpoint_path': path, 'init': 'random', 'convergence_tol': 0.9, 'max_its': 7}[change])
                b = b or models.make(plain, **explicit[second])
                got = fit(b)
                info = dict(model=config['name'], changed=change, made=made)
                rec.check(not log.states and log not in b.loggers, 'a logger of one decomposer is called by another', **info)
                rec.check(not os.path.exists(path), 'a file of one decomposer is written by another', **info)
                compare(rec, got, expected, 'an option of one decomposer changes another', **info)
                fit(a)
                rec.check(change != 'loggers' or len(log.states) == 2, 'an added logger is not called', **info)
                compare(rec, fit(b), expected, 'an option of one decomposer changes another', **info)
                if os.path.exists(path):
                    os.remove(path)
                rec.state((config['name'], first, second, change, made))
                rec.transition(3)
                rec.trace()
    rec.sample({'config': config['name']})


# ---------------------------------------------------------------- layouts

def layouts(job, rec, tmp):
    config = models.CONFIGS[job['config']]
    slices = models.data(config, job['seed'])

    def fit(data, init='random'):
        np.random.seed(8)
        log = Recorder()
        dec = models.make(config, loggers=[log], init=init)
        before = input_state([data], None)
        dec.fit(data, max_its=3)
        rec.check(input_state([data], None) == before, 'fitting changed the data', model=config['name'], init=init)
        return log.states

    inits = ['random'] + (['svd'] if config['rank'] <= min(config.get('shape', [9])) else [])
    for init in inits:
        expected = fit(models.give(config, slices), init)
        forms = {}
        if config['model'] == 'cp':
            for layout in LAYOUTS:
                forms[layout] = with_layout(slices, layout)
        else:
            for combo in itertools.product(LAYOUTS, repeat=min(3, len(slices))):
                forms['list', *combo] = [with_layout(x, combo[k % len(combo)]) for k, x in enumerate(slices)]
            if len({x.shape for x in slices}) == 1:
                for layout in LAYOUTS:
                    forms['tensor', layout] = with_layout(np.stack(slices, axis=2), layout)
        for name, form in forms.items():
            got = fit(form, init)
            for a, b in zip(got, expected):
                compare(rec, a, b, 'another layout of the data gives another fit', model=config['name'], layout=name, init=init)
            rec.state((config['name'], name, init))
            rec.transition(3)
            rec.trace()
    rec.sample({'config': config['name'], 'layouts': len(forms)})


def cmtf(job, rec, tmp):
    """Coupled fits leave all their inputs as they are, and depend on nothing else."""
    r = rng('cmtf', job['seed'])
    for shape in ((3, 4, 2), (2, 3), (2, 3, 2, 2)):
        for n in range(1, len(shape) + 1):
            for modes in itertools.combinations(range(len(shape)), n):
                for nn in (None, [True]*len(shape)):
                    for ridge in (None, [0.2]*len(shape)):
                        X = r.random_sample(shape)
                        Y = [r.random_sample((shape[m], 3 + m)) for m in modes]
                        coupling = list(modes)
                        expected = None
                        for layout in LAYOUTS:
                            Z, W = with_layout(X, layout), [with_layout(y, layout) for y in Y]
                            options = dict(non_negativity_constraints=nn and list(nn), ridge_penalties=ridge and list(ridge))
                            before = fingerprint(Z, *W), repr(coupling), repr(options)
                            np.random.seed(1)
                            dec = CMTF_ALS(2, max_its=3, convergence_tol=-1, rel_loss_tol=-1, **options)
                            dec.fit(Z, W, coupling)
                            dec.continue_fit(max_its=4)
                            info = dict(shape=shape, modes=modes, nn=nn, ridge=ridge, layout=layout)
                            rec.check((fingerprint(Z, *W), repr(coupling), repr(options)) == before, 'a coupled fit changed its inputs', **info)
                            got = model(dec.decomposition)
                            got['factors'] = got['factors'] + [np.array(u) for u in dec.uncoupled_factor_matrices]
                            if expected is None:
                                expected = got
                                # earlier use
                                X2, Y2 = X + 1, [y + 1 for y in Y]
                                dec.fit(X2, Y2[::-1], coupling[::-1], max_its=2)
                                np.random.seed(1)
                                dec.fit(Z, W, coupling, max_its=3)
                                dec.continue_fit(max_its=4)
                                got = model(dec.decomposition)
                                got['factors'] = got['factors'] + [np.array(u) for u in dec.uncoupled_factor_matrices]
                                rec.check(distance(got, expected) <= TOL, 'an earlier use changes a coupled fit', distance=distance(got, expected), **info)
                            rec.check(distance(got, expected) <= TOL, 'another layout gives another coupled fit', distance=distance(got, expected), **info)
                            rec.state((shape, modes, nn, ridge, layout))
                            rec.transition(2)
                            rec.trace()
    rec.sample({'kind': 'cmtf'})


# ---------------------------------------------------------------- the same objects with other contents

def put(X, values):
    for x, v in zip(X, values) if isinstance(X, list) else [(X, values)]:
        x[...] = v


def changed(job, rec, tmp):
    """The data, a start or a checkpoint file is changed by the user between two fits to the same object."""
    config = models.CONFIGS[job['config']]
    cp = config['model'] == 'cp'
    versions = [models.give(config, models.data(config, job['seed'], w)) for w in (0, 1)]
    is_list = isinstance(versions[0], list)

    def scale(X):
        for x in X if is_list else [X]:
            x *= 3

    def entry(X):
        (X[0] if is_list else X).flat[0] += 5

    changes = {'nothing': lambda X: None, 'first': lambda X: put(X, versions[0]), 'second': lambda X: put(X, versions[1]), 'scale': scale, 'entry': entry}
    if is_list:
        lengths = [x.shape for x in versions[0]]
        r = rng('changed', config['name'], job['seed'])
        longer = r.random_sample((lengths[0][0], lengths[0][1] + 2))

        def whole(w):
            return lambda X: X.__setitem__(slice(None), [x.copy() for x in versions[w]])
        changes.update({'first': whole(0), 'second': whole(1), 'element': lambda X: X.__setitem__(0, X[0] + 1), 'longer': lambda X: X.__setitem__(0, longer.copy()),
                        'append': lambda X: X.append(X[0] + 2), 'pop': lambda X: X.pop() if len(X) > 2 else None, 'reverse': lambda X: X.reverse()})
    path = os.path.join(tmp, 'start.h5')
    seeds = itertools.count()

    def new_file(X):
        # the file to start from is replaced by one for the present data
        np.random.seed(900 + next(seeds))
        dec = models.make(config, checkpoint_path=path + '.new')
        dec.fit(copied(X), max_its=1)
        os.replace(path + '.new', path)

    def copied(X):
        return [x.copy() for x in X] if is_list else X.copy()

    def fit(dec, X, how, start):
        np.random.seed(5)
        dec.init = {'random': 'random', 'svd': 'svd', 'file': path, 'precomputed': 'precomputed'}[how]
        dec.fit(X, max_its=2 if how != 'file' else 3, initial_decomposition=start if how == 'precomputed' else None)
        return snapshot(dec)

    rank = config['rank']
    hows = ['random', 'file', 'precomputed'] + (['svd'] if rank <= min(config.get('shape', [9])) else [])
    depth = 1 if config.get('large') else job['depth']
    for how in hows:
        for sequence in itertools.product(changes, repeat=depth):
            X = copied(versions[0])
            dec = models.make(config)
            start = None
            for k, change in enumerate(('nothing',) + sequence):
                changes[change](X)
                if how == 'file':
                    new_file(X)
                other = None
                if how == 'precomputed':
                    np.random.seed(k)
                    fresh = models.make(config)
                    fresh.fit(copied(X), max_its=1)
                    new = fresh.decomposition
                    if start is None:
                        start = new
                    elif cp:     # the same start object gets the new numbers
                        for f, g in zip(start.factor_matrices, new.factor_matrices):
                            f[...] = g
                        start.weights[...] = new.weights
                    else:
                        start = new
                    other = clone(start)
                before = input_state([X], None)
                got = fit(dec, X, how, start)
                info = dict(model=config['name'], init=how, changes=sequence[:k])
                rec.check(input_state([X], None) == before, 'fitting changed the data', **info)
                compare(rec, got, fit(models.make(config), copied(X), how, other), 'a fit to changed data differs from that of a fresh decomposer', **info)
                rec.state((config['name'], how, sequence[:k]))
                rec.transition()
            rec.trace()
    rec.sample({'config': config['name'], 'changes': sorted(changes), 'starts': hows})


def reconfigured(job, rec, tmp):
    """The configuration is changed between two fits, or before a fit is continued: only the present one matters."""
    config = models.CONFIGS[job['config']]
    cp = config['model'] == 'cp'
    n = len(config['shape']) if cp else 3
    X = models.give(config, models.data(config, job['seed'], 0))
    lengths = config['shape'] if cp else [config['I'], *config['J']]
    again = {'ridge': ('ridge_penalties', [0.5*(i + 1) for i in range(n)]), 'other ridge': ('ridge_penalties', [0, 3.0, 0.01][:n] + [0]*(n - 3)), 'no ridge': ('ridge_penalties', None)}
    if not cp:
        again.update({'one update': ('cp_updates_per_it', 1), 'four updates': ('cp_updates_per_it', 4)})
    refit = dict(again)
    nonneg = [i == n - 1 for i in range(n)]
    refit.update({'rank one': ('rank', 1), 'rank': ('rank', min(config['rank'] + 1, min(lengths))), 'nn': ('non_negativity_constraints', nonneg),
                  'no nn': ('non_negativity_constraints', [False]*n), 'orth': ('orthonormality_constraints', [i == 0 for i in range(n)]),
                  'no orth': ('orthonormality_constraints', None)})
    begin = dict(rank=config['rank'], ridge_penalties=config.get('ridge'), non_negativity_constraints=config.get('nn') or [False]*n,
                 orthonormality_constraints=config.get('orth'), **({} if cp else {'cp_updates_per_it': config.get('cp_updates', 3)}))
    # a mode can not be non-negative and orthonormal at once
    def allowed(state):
        return not any(a and b for a, b in zip(state['non_negativity_constraints'], state['orthonormality_constraints'] or [False]*n))

    def fresh(state, **kwargs):
        dec = models.make(config, **kwargs)
        for name, value in state.items():
            setattr(dec, name, list(value) if isinstance(value, list) else value)
        return dec

    depth = 1 if config.get('large') else job['depth']
    for how, changes in (('continue', again), ('refit', refit)):
        for sequence in itertools.product(changes, repeat=depth):
            state = dict(begin)
            dec = fresh(state)
            np.random.seed(3)
            dec.fit(X, max_its=2)
            for k, change in enumerate(sequence):
                name, value = changes[change]
                state[name] = value
                if not allowed(state):
                    break
                setattr(dec, name, list(value) if isinstance(value, list) else value)
                info = dict(model=config['name'], how=how, changes=sequence[:k + 1])
                if how == 'continue':
                    other = fresh(state, init='precomputed')
                    other.fit(X, max_its=0, initial_decomposition=clone(dec.decomposition))
                    other.continue_fit(2)
                    dec.continue_fit(dec.current_iteration + 2)
                else:
                    np.random.seed(4 + k)
                    dec.fit(X, max_its=2)
                    other = fresh(state)
                    np.random.seed(4 + k)
                    other.fit(X, max_its=2)
                d = distance(model(dec.decomposition), model(other.decomposition))
                rec.check(d <= TOL, 'a fit with another configuration differs from that of a fresh decomposer', distance=d, **info)
                rec.check(abs(dec.loss - other.loss) <= TOL*max(dec.loss, 1e-9*dec.X_norm**2), 'the loss after a fit with another configuration differs', got=dec.loss, expected=other.loss, **info)
                rec.state((config['name'], how, sequence[:k + 1]))
                rec.transition()
            rec.trace()
    rec.sample({'config': config['name'], 'changes': sorted(refit)})


def many_iterations(job, rec, tmp):
    """Fits of many iterations, alone, after others, and with two decomposers in turn."""
    i, seed = job['config'], job['seed']
    cmtf = i == len(models.CONFIGS)
    config = {'name': 'cmtf', 'large': False} if cmtf else models.CONFIGS[i]
    total = 12 if config.get('large') else 130
    if cmtf:
        r = rng('cmtf many', seed)
        datas = [([r.random_sample((3, 4, 2)), [r.random_sample((3, 5)), r.random_sample((2, 4))], [0, 2]]) for _ in range(2)]
        build = lambda **kw: CMTF_ALS(2, convergence_tol=-1, rel_loss_tol=-1, **kw)
    else:
        datas = [[models.give(config, models.data(config, seed, w))] for w in (0, 1)]
        build = lambda **kw: models.make(config, **kw)
    # a start that needs no random numbers
    np.random.seed(7)
    starter = build(init='random')
    starter.fit(*datas[0], max_its=0)
    start = starter.decomposition

    def new():
        log = Recorder(metrics=False)
        return build(init='precomputed', loggers=[log]), log

    def fit(dec, log, state, its=total, data=datas[0]):
        log.states.clear()
        np.random.seed(1 if cmtf else state)   # the factors of the matrices start at random
        dec.fit(*data, max_its=its, initial_decomposition=clone(start))
        return list(log.states)

    alone = fit(*new(), 1)
    flat = [x for d in datas[0] for x in (d if isinstance(d, list) else [d]) if isinstance(x, np.ndarray)]
    before = fingerprint(*flat)
    rec.check(len(alone) == total, 'number of iterations', got=len(alone), config=config['name'])

    def compare(states, how):
        info = dict(config=config['name'], how=how)
        rec.check(len(states) == total, 'number of iterations', got=len(states), expected=total, **info)
        for s, t in zip(states, alone):
            d = distance(s, t)
            rec.check(d <= TOL, 'a long fit differs from the same fit alone', iteration=s['it'], distance=d, **info)
        rec.state((config['name'], how))
        rec.transition(len(states))
        rec.trace()

    compare(fit(*new(), 2), 'another state of the random generator')
    dec, log = new()
    for its in (1, total, 2*total, 7):
        fit(dec, log, 3, its)
        compare(fit(dec, log, 4), f'after a fit of {its} iterations')
    # two decomposers in turn, one segment of iterations each
    (a, alog), (b, blog) = new(), new()
    ends = (total,) if cmtf else (total//3, total//2, total)   # CMTF normalises after every segment
    for end in ends:
        for dec, s in ((a, clone(start)), (b, clone(start))):
            if end == ends[0]:
                np.random.seed(1 if cmtf else 5)
                dec.fit(*datas[0], max_its=end, initial_decomposition=s)
            else:
                dec.continue_fit(max_its=end)
    compare(alog.states, 'two decomposers in turn')
    compare(blog.states, 'two decomposers in turn')
    rec.check(fingerprint(*flat) == before, 'the data were changed', config=config['name'])
    rec.sample({'config': config['name'], 'iterations': total})


def cmtf_changed(job, rec, tmp):
    shape = (3, 4, 2)
    for n in (1, 2):
        for modes in itertools.combinations(range(3), n):
            r = rng('cmtf changed', modes, job['seed'])
            first = [r.random_sample(shape)] + [r.random_sample((shape[m], 3 + m)) for m in modes]
            second = [r.random_sample(x.shape) for x in first]

            def whole(values):
                return lambda X, Y, coupling: put([X, *Y], values) if all(y.shape == v.shape for y, v in zip(Y, values[1:])) else None

            def longer(X, Y, coupling):
                Y[0] = np.hstack([Y[0], Y[0][:, :1] + 1])

            def swap(X, Y, coupling):
                Y.reverse()
                coupling.reverse()

            def pop(X, Y, coupling):
                if len(Y) > 1:
                    Y.pop()
                    coupling.pop()

            def append(X, Y, coupling):
                free = [m for m in range(3) if m not in coupling]
                if free:
                    Y.append(np.arange(2.*shape[free[0]]).reshape(shape[free[0]], 2))
                    coupling.append(free[0])

            def entry(X, Y, coupling):
                Y[-1][0, 0] += 5

            changes = {'nothing': lambda *a: None, 'first': whole(first), 'second': whole(second), 'longer': longer, 'swap': swap, 'pop': pop, 'append': append,
                       'entry': entry, 'tensor': lambda X, Y, coupling: X.__imul__(2)}
            for init in ('random', 'svd'):
                for sequence in itertools.product(changes, repeat=job['depth']):
                    X, *Y = [x.copy() for x in first]
                    coupling = list(modes)
                    dec = CMTF_ALS(2, convergence_tol=-1, rel_loss_tol=-1, init=init)
                    kept = []
                    for k, change in enumerate(('nothing',) + sequence):
                        changes[change](X, Y, coupling)
                        results = []
                        for d, args in ((dec, (X, Y, coupling)), (CMTF_ALS(2, convergence_tol=-1, rel_loss_tol=-1, init=init), (X.copy(), [y.copy() for y in Y], list(coupling)))):
                            np.random.seed(1)
                            tensor, pairs = d.fit_transform(*args, max_its=2)
                            got = model(d.decomposition)
                            got['factors'] = got['factors'] + [np.array(u) for u in d.uncoupled_factor_matrices]
                            kept.append((tensor, pairs, model(tensor), [[np.array(u) for u in pair] for pair in pairs]))
                            results.append((got, [float(getattr(d, name)) for name in ('SSE', 'loss', 'RMSE', 'explained_variance')]))
                        (got, a), (expected, b) = results
                        info = dict(modes=modes, init=init, changes=sequence[:k])
                        rec.check(distance(got, expected) <= TOL, 'a coupled fit to changed data differs from that of a fresh decomposer', distance=distance(got, expected), **info)
                        rec.check(all(abs(x - y) <= 1e-7*(1 + abs(y)) for x, y in zip(a, b)), 'metrics of a coupled fit to changed data', got=a, expected=b, **info)
                        for tensor, pairs, m, copies in kept:
                            rec.check(identical(model(tensor), m) and all(np.array_equal(u, v) for pair, copy in zip(pairs, copies) for u, v in zip(pair, copy)),
                                      'the result of an earlier coupled fit was changed', **info)
                        rec.state((modes, init, sequence[:k]))
                        rec.transition()
                    rec.trace()
    rec.sample({'kind': 'cmtf changed'})


# ---------------------------------------------------------------- number types

TYPES = ('<i8', '>i4', '<i4', '<i2', 'i1', 'u1', '<u2', '<u8', '<f4', '>f8')


def integers(shape, key, bipolar):
    """Whole numbers that every type can hold, but not their squares or sums."""
    x = rng('numbers', tuple(shape), key).randint(0, 125, size=shape)
    return (np.sign(x - 60)*(x//3) if bipolar else x).astype(float)


def numbers(job, rec, tmp):
    """The same values in another number type give the same fit."""
    config = models.CONFIGS[job['config']]
    bipolar = not config.get('kind') == 'nonneg'
    cp = config['model'] == 'cp'
    for sign in {False, bipolar}:
        if cp:
            values = integers(config['shape'], job['seed'], sign)
        else:
            values = [integers((config['I'], j), (job['seed'], k), sign) for k, j in enumerate(config['J'])]
        regular = not cp and len({x.shape for x in values}) == 1

        def fit(data, init):
            np.random.seed(8)
            log = Recorder()
            dec = models.make(config, loggers=[log], init=init)
            before = input_state([data], None)
            dec.fit(data, max_its=2)
            dec.continue_fit(max_its=4)
            rec.check(input_state([data], None) == before, 'fitting changed the data', model=config['name'], init=init)
            return log.states + [snapshot(dec)]

        inits = ['random'] + (['svd'] if config['rank'] <= min(config.get('shape', [9])) else []) + (['cp'] if regular else [])
        types = [t for t in TYPES if not sign or 'u' not in t]
        for init in inits:
            expected = fit(models.give(config, values) if cp else [x.copy() for x in values], init)
            forms = {}
            for k, t in enumerate(types):
                if cp:
                    forms[t] = values.astype(t)
                else:
                    forms['list', t] = [x.astype(t) for x in values]
                    forms['mixed', t] = [x.astype(types[(k + 3*i) % len(types)]) for i, x in enumerate(values)]
                    forms['first', t] = [x.astype(t) if i == 0 else x.copy() for i, x in enumerate(values)]
                    if regular:
                        forms['tensor', t] = np.stack(values, axis=2).astype(t)
            for name, form in forms.items():
                got = fit(form, init)
                tol = 1e-4 if any(x.dtype == np.float32 for x in (form if isinstance(form, list) else [form])) else TOL
                rec.check(len(got) == len(expected), 'iterations with another number type', model=config['name'], type=name)
                for a, b in zip(got, expected):
                    d = distance(a, b)
                    info = dict(model=config['name'], type=name, init=init, iteration=a['it'])
                    rec.check(d <= tol, 'another number type of the data gives another fit', distance=d, **info)
                    total = sum(np.sum(x**2) for x in values)
                    for metric, scale in (('SSE', total), ('loss', total), ('MSE', total), ('RMSE', np.sqrt(total)), ('explained_variance', 1)):
                        rec.check(abs(a[metric] - b[metric]) <= tol*scale, f'another number type of the data gives another fit: {metric}', got=a[metric], expected=b[metric], **info)
                rec.state((config['name'], name, init, sign))
                rec.transition(2)
                rec.trace()
    rec.sample({'config': config['name'], 'types': TYPES})


def cmtf_numbers(job, rec, tmp):
    for shape in ((3, 4, 2), (3, 3)):
        for n in range(1, len(shape) + 1):
            for modes in itertools.combinations(range(len(shape)), n):
                X = integers(shape, job['seed'], True)
                Y = [integers((shape[m], 3 + m), (m, job['seed']), True) for m in modes]
                types = [t for t in TYPES if 'u' not in t and t != '<f4']
                for init in ('random', 'svd'):
                    def fit(Z, W):
                        np.random.seed(1)
                        before = fingerprint(Z, *W)
                        dec = CMTF_ALS(2, max_its=3, convergence_tol=-1, rel_loss_tol=-1, init=init)
                        dec.fit(Z, W, list(modes))
                        dec.continue_fit(max_its=4)
                        rec.check(fingerprint(Z, *W) == before, 'a coupled fit changed its inputs', shape=shape, modes=modes)
                        got = model(dec.decomposition)
                        got['factors'] = got['factors'] + [np.array(u) for u in dec.uncoupled_factor_matrices]
                        return got, [float(getattr(dec, name)) for name in ('SSE', 'loss', 'RMSE', 'explained_variance')]

                    expected, metrics = fit(X, Y)
                    for a, b in itertools.product(types, repeat=2):
                        got, values = fit(X.astype(a), [y.astype(b) for y in Y])
                        info = dict(shape=shape, modes=modes, types=[a, b], init=init)
                        rec.check(distance(got, expected) <= TOL, 'another number type gives another coupled fit', distance=distance(got, expected), **info)
                        rec.check(all(abs(x - y) <= 1e-7*(1 + abs(y)) for x, y in zip(values, metrics)), 'another number type gives other metrics of a coupled fit', got=values, expected=metrics, **info)
                        rec.state((shape, modes, init, a, b))
                        rec.transition(2)
                        rec.trace()
    rec.sample({'kind': 'cmtf numbers'})
