"""C13: fits respect the iteration budget and stop exactly at convergence.

The loss sequence of a long run without stopping criteria, computed from copies of its
states, is the model: it says after which iteration a run with given criteria has to stop.
"""
import contextlib
import io
import itertools
import os

import numpy as np
from mc import fits, models
from mc.fits import Recorder, identical, model
from mc.util import rng, scratch

ID = 'C13'
LEVEL = 'model_checking'
RULE = ('budgets: seven sequences up to 300, all combinations of configured budget 0..4 x budget of fit {none, 0..4} x two continued fits {none, 0..6}, and of fits that go back to a checkpoint or go on with another tolerance; criteria: for every '
        'position in a run of 14 iterations (and some of a run of 260) a convergence tolerance (and for CP an error tolerance) that is first met there x budgets '
        'around it x {one fit, every split into two or three segments, resumed checkpoint, earlier checkpoint loaded by the same decomposer} x {data, data of small and large norm, infeasible starting point from which the loss '
        'increases first} x print frequencies (every one with every position of convergence); for 16 configurations of CP and PARAFAC2')
ASSUMPTIONS = ['tolerances for which the documented and the common definition of the relative change (denominator before / after, with / '
               'without the penalty) agree on the iteration', 'a fit that is continued after it converged runs no iterations']


def jobs(tier, seed):
    out = []
    for i in range(len(models.CONFIGS)):
        for configured in range(5):
            out.append({'kind': 'budget', 'config': i, 'configured': configured, 'seed': seed})
        out.append({'kind': 'returned', 'config': i, 'seed': seed})
        for s in range(4 if tier == 'thorough' else 2):
            out.append({'kind': 'criteria', 'config': i, 'seed': seed + 100*s, 'tier': tier})
        config = models.CONFIGS[i]
        if 'large' not in config:
            if i in (0, 2, 3, 5, 7, 8, 9) or tier == 'thorough':
                out.insert(0, {'kind': 'criteria', 'config': i, 'seed': seed, 'tier': tier, 'long': 260})
            out.insert(0, {'kind': 'late', 'config': i, 'seed': seed})
        if 'ridge' not in config and 'types' not in config:
            out += [{'kind': 'criteria', 'config': i, 'seed': seed, 'tier': tier, 'scale': scale} for scale in (1e-6, 1e4)]
        if 'nn' in config or 'orth' in config:
            out.append({'kind': 'criteria', 'config': i, 'seed': seed, 'tier': tier, 'infeasible': True})
    return out


def run(job, rec):
    config = models.CONFIGS[job['config']]
    with scratch() as tmp:
        {'budget': budget, 'criteria': criteria, 'late': late, 'returned': returned}[job['kind']](job, config, rec, tmp)


def budget(job, config, rec, tmp):
    X = models.data(config, job['seed'])
    a = job['configured']
    give = models.give(config, X)
    for b in (None, 0, 1, 2, 3, 4):
        for further in itertools.product((None, 0, 1, 2, 3, 4, 5, 6), repeat=2):
            if b is not None and further[0] is None or further[1] is None and further[0] is not None:
                continue   # which budget is in force then is not specified
            path = os.path.join(tmp, 'a.h5')
            with_file = (a + sum(x or 0 for x in further)) % 3 == 0
            if os.path.exists(path):
                os.remove(path)
            log = Recorder(metrics=False)
            dec = models.make(config, max_its=a, loggers=[log], checkpoint_path=path if with_file else None, checkpoint_frequency=2)
            np.random.seed(1)
            total = a if b is None else b
            info = dict(config=config['name'], configured=a, fit=b, further=further)
            if b is None:
                dec.fit(give)
            else:
                dec.fit(give, max_its=b)
            rec.check(len(log.states) == total and dec.current_iteration == total, 'the fit did not run its budget',
                      ran=len(log.states), budget=total, current_iteration=dec.current_iteration, **info)
            rec.check(os.path.exists(path) == (with_file and total > 0), 'checkpoint file', **info)
            rec.transition()
            for c in further:
                before = model(dec.decomposition)
                content = open(path, 'rb').read() if os.path.exists(path) else None
                if c is None:
                    dec.continue_fit()
                else:
                    dec.continue_fit(max_its=c)
                new = max(total, c if c is not None else total)
                if new == total:
                    rec.check(identical(before, model(dec.decomposition)), 'a used up budget changes the model', **info)
                    rec.check(content == (open(path, 'rb').read() if os.path.exists(path) else None), 'a used up budget changes the file', **info)
                else:
                    rec.check(not identical(before, model(dec.decomposition)), 'no iteration was run', **info)
                rec.check([s['it'] for s in log.states] == list(range(new)) and dec.current_iteration == new, 'the continued fit did not run up to its budget',
                          ran=[s['it'] for s in log.states], budget=new, current_iteration=dec.current_iteration, **info)
                total = new
                rec.transition()
            rec.state((a, b, further, config['name']))
            rec.trace()
    rec.sample({'config': config['name'], 'configured': a})


def returned(job, config, rec, tmp):
    """Budgets of a decomposer that goes back to one of its checkpoints, and after the criterion was met."""
    X = models.data(config, job['seed'])
    give = models.give(config, X)
    budgets = (0, 1, 2, 3, 5, 6)
    for load, first, second in itertools.product((None, 0, 1, 3), budgets, budgets):
        for how in ('argument', 'attribute'):
            path = os.path.join(tmp, 'r.h5')
            if os.path.exists(path):
                os.remove(path)
            log = Recorder(metrics=False)
            dec = models.make(config, max_its=9, loggers=[log], checkpoint_path=path, checkpoint_frequency=1)
            np.random.seed(3)
            if load is None:
                # stops after one iteration, and is then told to go on
                dec.convergence_tol = np.inf
                dec.fit(give, max_its=5) if how == 'argument' else dec.fit(give)
                dec.convergence_tol = -1
                expected = list(range(len(log.states)))
                rec.check(len(expected) <= 1, 'the fit did not stop when the criterion was met', iterations=len(expected), config=config['name'])
            else:
                dec.fit(give, max_its=5)
                dec.load_checkpoint(path, load_it=load)
                expected = list(range(5))
            total = load + 1 if load is not None else len(expected)
            for b in (first, second):
                if how == 'argument':
                    dec.continue_fit(max_its=b)
                else:
                    dec.max_its = b
                    dec.continue_fit()
                expected += range(total, b)
                total = max(total, b)
                its = [s['it'] for s in log.states]
                rec.check(its == expected and dec.current_iteration == total, 'the continued fit did not run up to its budget', ran=its, expected=expected,
                          current_iteration=dec.current_iteration, config=config['name'], loaded=load, budgets=(first, second), given_as=how)
                rec.transition()
            rec.state((config['name'], load, first, second, how))
            rec.trace()


def changes(config, X, states):
    """Relative changes of every iteration by all definitions that may be meant."""
    ridge = config.get('ridge')
    if config['model'] == 'cp':
        plain = [fits.cp_sse(X, s) for s in states]
        full = [fits.cp_loss(X, s, ridge) for s in states]
    else:
        plain = [fits.pf2_sse(X, s) for s in states]
        full = [fits.pf2_loss(X, s, ridge) for s in states]
    # PARAFAC2 documents the loss, CP the sum of squared errors as L
    sequences = [full] if config['model'] == 'pf2' else [plain, full] if ridge else [plain]
    out = []
    for L in sequences:
        out.append([abs(L[i] - L[i + 1])/L[i] for i in range(len(L) - 1)])
        out.append([abs(L[i] - L[i + 1])/L[i + 1] for i in range(len(L) - 1)])
    return out, plain


def first(values, tol, end):
    for i, v in enumerate(values):
        if v < tol:
            return i + 1   # number of iterations run
    return end


def late(job, config, rec, tmp):
    """Large budgets."""
    X = models.data(config, job['seed'])
    give = models.give(config, X)
    for budgets in ((99, 100, 101, 130), (127, 128, 129), (255, 256, 257, 258), (1, 300), (63, 64, 65), (260, 100, 261), (101, 1)):
        for configured in (1000, budgets[0]):
            log = Recorder(metrics=False)
            np.random.seed(2)
            dec = models.make(config, max_its=configured, loggers=[log])
            total = 0
            for k, b in enumerate(budgets):
                if k == 0 and b == configured:
                    dec.fit(give)
                elif k == 0:
                    dec.fit(give, max_its=b)
                else:
                    dec.continue_fit(max_its=b)
                total = max(total, b)
                rec.check([s['it'] for s in log.states] == list(range(total)) and dec.current_iteration == total, 'the fit did not run its budget',
                          ran=len(log.states), budgets=budgets, call=k, config=config['name'])
                rec.transition()
            rec.state((budgets, configured, config['name']))
            rec.trace()
    rec.sample({'config': config['name']})


def criteria(job, config, rec, tmp):
    LONG = job.get('long', 14)
    X = models.data(config, job['seed'])
    if 'scale' in job:
        X = [job['scale']*x for x in X] if isinstance(X, list) else job['scale']*X
    give = models.give(config, X)
    options = {}
    if 'infeasible' in job:
        # the unconstrained solution: the first iteration has to increase the loss
        np.random.seed(rng(13, job['seed'], config['name']).randint(2**31))
        free = models.make({k: v for k, v in config.items() if k not in ('nn', 'orth')})
        free.fit(give, max_its=40)
        options = {'init': 'precomputed'}

    def run_fit(dec, b):
        if options:
            dec.fit(give, max_its=b, initial_decomposition=fits.clone(free.decomposition))
        else:
            dec.fit(give, max_its=b)

    log = Recorder(metrics=False)
    np.random.seed(rng(13, job['seed'], config['name']).randint(2**31))
    state = np.random.get_state()
    dec = models.make(config, loggers=[log], **options)
    run_fit(dec, 0)
    start = model(dec.decomposition)
    np.random.set_state(state)
    run_fit(dec, LONG)
    if options and fits_loss(config, X, log.states[0]) > fits_loss(config, X, start):
        rec.note('runs in which the first iteration increases the loss')
    sequences, sse = changes(config, X, [start] + log.states)
    norm2 = float(np.sum(X**2)) if config['model'] == 'cp' else float(sum(np.sum(x**2) for x in X))
    cases = []
    # a tolerance between consecutive distinct values, so that it is not decided by rounding
    for values in [sorted(set(np.concatenate(sequences)))]:
        for low, high in zip([values[0]/10] + values[:-1], values):
            if high > low*(1 + 1e-3):
                tol = np.sqrt(low*high)
                stops = {first(s, tol, LONG) for s in sequences}
                if len(stops) == 1 and tol > 1e-10:
                    cases.append(('convergence_tol', float(tol), stops.pop()))
    if config['model'] == 'cp':
        rel = [s/norm2 for s in sse]
        if abs(rel[0]) > 0:
            for i in range(1, len(rel)):
                if rel[i] < min(rel[:i])*(1 - 1e-6) and np.sqrt(rel[i]*min(rel[:i])) < rel[0]:
                    cases.append(('rel_loss_tol', float(np.sqrt(rel[i]*min(rel[:i]))), i))
    # one case per position and criterion
    seen = {}
    for name, tol, stop in cases:
        seen.setdefault((name, stop), tol)
    if LONG > 14:
        for name in ('convergence_tol', 'rel_loss_tol'):
            stops = sorted(s for n, s in seen if n == name and s > 14)
            keep = set(stops[::max(1, len(stops)//3)]) | {s for s in stops if min(abs(s - c) for c in (50, 101, 129, 200, 257)) == 0}
            seen = {k: v for k, v in seen.items() if k[0] != name or k[1] in keep}
    for (name, stop), tol in seen.items():
        for total in sorted({1, stop - 1, stop, stop + 1, LONG} - {0} if LONG == 14 else {stop, LONG}):
            expected = min(stop, total)
            for split in splits(expected, total, job['tier']) if LONG == 14 else some_splits(expected, total):
                if max(b for b in split if b not in WAYS) <= LONG:
                    one(config, give, state, name, tol, stop, split, rec, tmp, run_fit, options)
        if LONG == 14 and stop < LONG:
            for printing in PRINT:
                one(config, give, state, name, tol, stop, (stop + 1,), rec, tmp, run_fit, options, printing)
            for a in range(1, stop):
                if a in (1, stop//2, stop - 1) or job['tier'] == 'thorough':
                    one(config, give, state, name, tol, stop, ('rewind', stop + 2, a), rec, tmp, run_fit, options)
        rec.note('positions of convergence')
    rec.sample({'config': config['name'], 'cases': len(seen)})


PRINT = (-1, None, 1, 3, 0, 1000, 2, 5)
WAYS = ('resume', 'rewind')


def splits(expected, total, tier):
    """Budgets of the successive calls."""
    yield (total,)
    for a in range(0, total):
        if a <= expected + 1:
            yield (a, total)
    yield (total, total + 2)     # continued after the end
    if tier == 'thorough' or total <= 6:
        for a in range(1, min(total, 5)):
            for b in range(a, min(total, 6)):
                yield (a, b, total)
    for a in range(1, expected):
        yield ('resume', a, total)


def some_splits(expected, total):
    yield (total,)
    yield (total, total + 2)
    for a in {1, expected//2, expected - 1, expected} - {0}:
        yield (a, total)
        if a < expected:
            yield ('resume', a, total)


def fits_loss(config, X, s):
    return fits.cp_sse(X, s) if config['model'] == 'cp' else fits.pf2_sse(X, s)


def one(*args):
    with contextlib.redirect_stdout(io.StringIO()):
        _one(*args)


NO_CHOICE = object()


def _one(config, give, state, name, tol, stop, split, rec, tmp, run_fit, options, printing=NO_CHOICE):
    log = Recorder(metrics=False)
    path = os.path.join(tmp, 'c.h5')
    if os.path.exists(path):
        os.remove(path)
    way = split[0] if split[0] in WAYS else None
    budgets = split[1:] if way else split
    if printing is NO_CHOICE:
        printing = PRINT[(stop + len(split) + sum(budgets)) % 6]
    printing = {'print_frequency': printing}
    dec = models.make(config, loggers=[log], checkpoint_path=path if way else None, checkpoint_frequency=1, **{name: tol}, **options, **printing)
    np.random.set_state(state)
    info = dict(config=config['name'], criterion=name, tolerance=tol, calls=split, **printing)
    if way == 'rewind':
        # the same decomposer goes back to an earlier checkpoint after it stopped
        total, a = budgets
        run_fit(dec, total)
        done = min(stop, total)
        expected = list(range(done))
        for call in (1, 2):
            dec.load_checkpoint(path, load_it=a - 1)
            dec.continue_fit(max_its=total)
            expected += range(a, done)
            its = [s['it'] for s in log.states]
            rec.check(its == expected, 'a fit continued from an earlier checkpoint of it does not stop where the fit stopped', ran=its, expected=expected, call=call, **info)
            rec.transition()
        rec.state((config['name'], name, tol, split))
        rec.trace()
        return
    done = 0
    for n, b in enumerate(budgets):
        if n == 0:
            run_fit(dec, b)
        elif way:
            dec = models.make(config, init='from_checkpoint', loggers=[log], **{name: tol}, **printing)
            dec.fit(give, max_its=b, initial_decomposition=path)
        else:
            dec.continue_fit(max_its=b)
        done = max(done, min(stop, b))
        its = [s['it'] for s in log.states]
        rec.check(its == list(range(done)), 'did not stop right after the iteration that met the criterion (or at the budget)',
                  ran=its, expected=done, call=n, **info)
        rec.transition()
    rec.state((config['name'], name, tol, split, *printing.values()))
    rec.trace()
