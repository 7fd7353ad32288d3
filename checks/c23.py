"""C23: experiment logs contain every logged value exactly once."""
import copy
import itertools
import os

import h5py
import numpy as np
from tenkit.log import Experiment, HDF5Logger
from mc.util import merges, scratch

ID = 'C23'
LEVEL = 'model_checking'
RULE = ('every sequence of log / save / reopen operations up to depth 7 (thorough 9) on one experiment and up to depth 5 (thorough 6) on two experiments of one file, for every store frequency 1-4 and 1-3 '
        'targets, the file compared with a list model after every operation; every interleaving of first and continued runs of two experiments x every number of logged steps per run x store '
        'frequencies x families of outputs; histories of 420 steps (store frequencies up to 1000) and experiments with up to 257 results, parameters and targets')
ASSUMPTIONS = ['one process at a time', 'every output, metric, attribute and parameter can be stored by HDF5', 'a continued logger has the targets of the first one']

VALUES = [0.1, -1/3, 1e300, float('nan'), 0, -0.0, 1e-50, 16777217.0, np.float64(2/3), np.float32(0.7), 3, np.array(2.5), np.int64(-7), float('inf')]
TARGETS = {
    'loss': lambda parameters, *args: VALUES[parameters['step'] % len(VALUES)],
    'gradient': lambda parameters, *args: parameters['step']*1.25 + sum(args),
    'a': lambda parameters, *args: -parameters['who'],
}


def jobs(tier, seed):
    out = []
    deep = tier == 'thorough'
    for freq in (1, 2, 3, 4):
        for n in (1, 2, 3):
            for first in ('log', 'save', 'reopen'):
                out.append({'part': 'logger', 'freq': [freq], 'targets': n, 'depth': 9 if deep else 7, 'first': ['x', first]})
        for other in (1, 2, 3):
            for first in itertools.product('xy', ('log', 'save', 'reopen')):
                out.append({'part': 'logger', 'freq': [freq, other], 'targets': 2, 'depth': 6 if deep else 5, 'first': first})
    for freq in (1, 2, 3):
        for family in range(len(OUTPUTS)):
            out.append({'part': 'experiment', 'freq': freq, 'family': family, 'most': 4 if deep else 3})
    for freq in (1, 2, 7, 10, 33, 64, 100, 130, 1000):
        out.append({'part': 'long', 'freq': freq, 'steps': 420 if freq > 1 else 300})
    out += [{'part': 'many', 'n': n} for n in (0, 1, 17, 33, 65, 70, 101, 130, 200, 257)]
    return out


def run(job, rec):
    if job['part'] in ('long', 'many'):
        return {'long': run_long, 'many': run_many}[job['part']](job, rec)
    (run_logger if job['part'] == 'logger' else run_experiments)(job, rec)


# --- the logger ------------------------------------------------------------------------------------------------------

def single(values):
    return np.array([np.float32(v) for v in values], dtype=np.float32)


class Model:
    """Per experiment and target: the values on disk and those logged since."""

    def __init__(self, names, freq):
        self.disk = {n: [] for n in names}
        self.pending = {n: [] for n in names}
        self.steps = 0
        self.freq = freq

    def log(self, values):
        for n, v in values.items():
            self.pending[n].append(v)
        self.steps += 1
        if self.steps % self.freq == 0:
            self.save()

    def save(self):
        for n in self.disk:
            self.disk[n] = self.disk[n] + self.pending[n]
            self.pending[n] = []

    def reopen(self):
        self.pending = {n: [] for n in self.pending}
        self.steps = len(next(iter(self.disk.values())))


def compare(rec, path, models, **info):
    with h5py.File(path, 'r') as h5:
        rec.check(sorted(h5) == sorted(models), 'groups of the file', got=sorted(h5), **info)
        for name, model in models.items():
            rec.check(sorted(h5[name]) == sorted(model.disk), 'datasets of the experiment', experiment=name, got=sorted(h5[name]), **info)
            for target, values in model.disk.items():
                got = h5[name][target]
                rec.check(got.dtype == np.float32 and got.shape == (len(values),) and got[...].tobytes() == single(values).tobytes(),
                          'the stored values are not those logged up to the last save', experiment=name, target=target, got=got[...], expected=single(values), **info)


def run_logger(job, rec):
    names = list(TARGETS)[:job['targets']]
    targets = {n: TARGETS[n] for n in names}
    experiments = 'xy'[:len(job['freq'])]
    parameters = {'step': 0, 'who': 0}
    ops = list(itertools.product(experiments, ('log', 'save', 'reopen')))
    first = tuple(job['first'])
    with scratch() as folder:
        path = os.path.join(folder, 'log.h5')

        def open_logger(name, old):
            k = experiments.index(name)
            return HDF5Logger(path, name, job['freq'][k], (k, 0.5), continue_old=old, **targets)

        def visit(loggers, models, steps, history):
            compare(rec, path, models, history=history, frequencies=job['freq'])
            rec.state((history,))
            if len(history) == job['depth']:
                rec.trace()
                return
            with open(path, 'rb') as f:
                content = f.read()
            for op in ops if history else [first]:
                name, what = op
                k = experiments.index(name)
                new, now = dict(loggers), dict(models)
                new[name], now[name] = copy.deepcopy(loggers[name]), copy.deepcopy(models[name])
                if what == 'log':
                    parameters.update(step=steps, who=k)
                    new[name].log(parameters)
                    now[name].log({n: TARGETS[n](parameters, k, 0.5) for n in names})
                elif what == 'save':
                    new[name].save_logs()
                    now[name].save()
                else:
                    new[name] = open_logger(name, True)
                    now[name].reopen()
                rec.transition()
                visit(new, now, steps + 1, history + [op])
                with open(path, 'wb') as f:
                    f.write(content)

        visit({e: open_logger(e, False) for e in experiments}, {e: Model(names, f) for e, f in zip(experiments, job['freq'])}, 0, [])
    rec.sample(job)


def run_long(job, rec):
    """One long history per (reopened after, saved after): more steps than fit in any buffer."""
    freq, parameters = job['freq'], {'step': 0, 'who': 1}
    for reopened, saved in itertools.product((None, freq, freq + 1, 150), (None, 41)):
        with scratch() as folder:
            path = os.path.join(folder, 'log.h5')
            logger, model = HDF5Logger(path, 'x', freq, (0, 0.5), **TARGETS), Model(TARGETS, freq)
            for step in range(job['steps']):
                parameters.update(step=step)
                logger.log(parameters)
                model.log({n: f(parameters, 0, 0.5) for n, f in TARGETS.items()})
                rec.transition()
                if saved and step % saved == saved - 1:
                    logger.save_logs()
                    model.save()
                if reopened and step % reopened == reopened - 1:
                    logger = HDF5Logger(path, 'x', freq, (0, 0.5), continue_old=True, **TARGETS)
                    model.reopen()
                if step % 50 == 0 or step == job['steps'] - 1:
                    compare(rec, path, {'x': model}, step=step, reopened=reopened, saved=saved, freq=freq)
                rec.state((freq, reopened, saved, step))
            rec.trace()
    rec.sample(job)


def run_many(job, rec):
    """Many results, metrics, parameters, attributes, metadata and logged targets."""
    n = job['n']
    for old in (False, True):
        with scratch() as folder:
            path = os.path.join(folder, 'log.h5')
            attributes, metadata = {f'a{i}': i + 0.5 for i in range(n)}, {f'm{i}': np.arange(i % 5 + 1.)*i for i in range(n)}
            for run in range(2 if old else 1):
                experiment = Experiment(path, 'e', attributes if not run else None, metadata if not run else None)
                params = {f'p{i}': i*(run + 1) for i in range(n)}
                results = {f'r{i}': np.full((1 + i % 3, 2), i + run/2) for i in range(n)}
                metrics = {f's{i}': -i - run/4 for i in range(n)}
                targets = {f't{i}': (lambda parameters, i=i: parameters*i) for i in range(n + 1)}
                logger = HDF5Logger(path, 'e', 2, (), continue_old=bool(run), **targets)

                def function(X, logger, h5_group, load_old, **given):
                    rec.check(given == params, 'what the experiment function is given', n=n)
                    return results

                experiment.run_experiment(None, function, params, lambda *a: metrics, logger=logger, continue_old=bool(run))
                for step in range(3):
                    logger.log(step + 1.0)
                logger.save_logs()
            with h5py.File(path, 'r') as h5:
                g = h5['e']
                rec.check(set(g) == set(results) | set(metrics) | set(targets), 'names of the stored results', n=n, got=len(g))
                rec.check(all(np.array_equal(g[k][...], v) for k, v in (results | metrics).items()), 'stored results', n=n, old=old)
                rec.check(set(g.attrs) == set(attributes) | set(params) and all(g.attrs[k] == v for k, v in (attributes | params).items()), 'attributes', n=n, old=old)
                rec.check(not n or (set(h5['metadata']) == set(metadata) and all(np.array_equal(h5['metadata'][k][...], v) for k, v in metadata.items())), 'metadata', n=n)
                for i in range(n + 1):
                    rec.check(g[f't{i}'][...].tolist() == [1.0*i, 2.0*i, 3.0*i]*(2 if old else 1), 'logged values', target=i, n=n, old=old, got=g[f't{i}'][...])
            rec.state((n, old))
            rec.trace()
    rec.sample(job)


# --- experiments -----------------------------------------------------------------------------------------------------

def same_shapes(run):
    return {'W': np.arange(6.).reshape(2, 3)*(run + 1) + 0.5, 'count': run, 'error': 1/(run + 1)}, {'fit': 0.9 - run/8, 'spread': np.array([run, 0.25])}


def other_shapes(run):
    return {'W': np.ones((2, 1 + run))*(run + 1), 'path': np.arange(3. - run)}, {'scores': np.arange(run + 1)/8}


def other_kinds(run):
    return {'n': [3, 2.5, 1e12][run], 'flags': [np.array([1, 0]), np.array([0.5, -0.5]), np.array([7, 8], dtype=np.int8)][run], 'scalar': [1., np.ones(2), 5][run]}, {'m': [np.float32(1.5), 0.1, 2][run]}


def other_names(run):
    return {'always': float(run), **({'late': 3.5} if run else {})}, {'metric': -run, **({'another': np.ones(2)*run} if run == 2 else {})}


OUTPUTS = [same_shapes, other_shapes, other_kinds, other_names]


def run_experiments(job, rec):
    family = OUTPUTS[job['family']]
    steps = list(itertools.product(range(job['most'] + 1), repeat=3))
    for number, order in enumerate(merges(['x', 'x', 'x'], ['y', 'y'])):
        for k, count in enumerate(steps):
            if (k + number) % 4 and job['most'] < 4:
                continue
            with scratch() as folder:
                experiments(job, rec, os.path.join(folder, 'log.h5'), family, order, {'x': count, 'y': (count[1], count[0] + 1)}, with_logger=(k + number) % 3 > 0, init=k % 2)


def equal(stored, expected):
    stored, expected = np.asarray(stored[...] if isinstance(stored, h5py.Dataset) else stored), np.asarray(expected)
    return stored.shape == expected.shape and stored.dtype == expected.dtype and np.array_equal(stored, expected)


def experiments(job, rec, path, family, order, counts, with_logger, init):
    info = dict(order=order, family=family.__name__, frequency=job['freq'], steps=counts, with_logger=with_logger)
    X = np.arange(4.)
    attributes = {'x': {'title': 'first', 'level': 0, 'note': ''}, 'y': None if init else {'title': 'second'}}
    metadata = {'x': {'version': 3.5, 'revision': 0}, 'y': {'author': 'who'} if init else None}
    runs = {'x': 0, 'y': 0}
    models, expected, params_of = {}, {}, {}
    meta = {}
    for name in order:
        n = runs[name]
        old = n > 0
        k = 'xy'.index(name)
        experiment = Experiment(path, name, attributes[name] if not old else None, metadata[name] if not old else None)
        if not old and metadata[name]:
            meta.update(metadata[name])
        logger = None
        if with_logger:
            if not old:
                models[name] = Model(['gradient', 'loss'], job['freq'])
            logger = HDF5Logger(path, name, job['freq'], (k, 0.5), continue_old=old, gradient=TARGETS['gradient'], loss=TARGETS['loss'])
            if old:
                models[name].reopen()
        params = {'rank': 2 + n, 'alpha': 0.1, 'shape': [3, 4]}
        params.update([{}, {'initial_scale': 3.0, 'reinit': 1, 'init_2': 'svd'}, {'Init': 'x', 'max_its': 7, 'tol': 1e-8, 'ridge': 0, 'flag': False, 'name': '', 'zero': 0.0, 'penalties': [0., 0.]}][(n + k) % 3])
        if init or not old:
            params['init'] = 'random' if init else object()
        before = dict(params)
        outputs, metrics = family(n)
        calls = []

        def function(data, **kwargs):
            calls.append(kwargs)
            rec.check(data is X and kwargs.pop('load_old') == old and kwargs.pop('logger') is logger and kwargs.pop('h5_group').name == '/' + name and kwargs == before,
                      'what the experiment function is given', got=repr(kwargs), **info)
            for step in range(counts[name][n]):
                if with_logger:
                    parameters = {'step': step + 5*n, 'who': k}
                    logger.log(parameters)
                    models[name].log({t: TARGETS[t](parameters, k, 0.5) for t in ('gradient', 'loss')})
            if with_logger and counts[name][n] % 2:
                logger.save_logs()
                models[name].save()
            return outputs

        def evaluate(data, given, results):
            calls.append('evaluate')
            rec.check(data is X and given == before and results is outputs, 'what the final evaluation is given', **info)
            return metrics

        experiment.run_experiment(X, function, params, evaluate, logger=logger, continue_old=old)
        rec.check(len(calls) == 2 and params == before, 'the experiment function and the final evaluation run once each', calls=len(calls), **info)
        runs[name] += 1
        expected.setdefault(name, {}).update(outputs)
        expected[name].update(metrics)
        params_of.setdefault(name, {}).update({p: v for p, v in params.items() if p != 'init'})
        if attributes[name]:
            params_of[name].update(attributes[name])
        with h5py.File(path, 'r') as h5:
            rec.check(set(h5) == set(expected) | ({'metadata'} if meta else set()), 'groups of the file', got=sorted(h5), **info)
            if meta:
                rec.check(set(h5['metadata']) == set(meta), 'metadata', got=sorted(h5['metadata']), **info)
            for e in expected:
                g = h5[e]
                logs = {t: single(v) for t, v in models[e].disk.items()} if with_logger else {}
                rec.check(set(g) == set(expected[e]) | set(logs), 'stored names', experiment=e, got=sorted(g), **info)
                for t, v in logs.items():
                    rec.check(g[t].dtype == np.float32 and g[t][...].tobytes() == v.tobytes(), 'the logs of the experiment', experiment=e, target=t, got=g[t][...], expected=v, **info)
                for p, v in expected[e].items():
                    rec.check(equal(g[p], v), 'the stored result is not that of the last run', experiment=e, result=p, got=g[p][...], expected=v, run=n, **info)
                rec.check(set(g.attrs) == set(params_of[e]), 'attributes', experiment=e, got=sorted(g.attrs), **info)
                for p, v in params_of[e].items():
                    rec.check(np.array_equal(g.attrs[p], v), 'attribute', experiment=e, attribute=p, got=g.attrs[p], **info)
        rec.state((info, dict(runs)))
        rec.transition()
    rec.trace()
