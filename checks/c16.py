"""C16: a storage failure during a checkpoint never costs an earlier checkpoint."""
import functools
import os
import pickle
import shutil

import h5py
import numpy as np
from tenkit.decomposition.logging import LossLogger, RMSELogger
from mc import models
from mc.fits import Recorder, identical, model
from mc.util import scratch

ID = 'C16'
LEVEL = 'fault_enumeration'
RULE = ('every storage operation (opening and closing the file, creating, deleting, moving and resizing groups, datasets and attributes, writing '
        'into them, renaming files) of every checkpoint of the histories {3 iterations with frequency 1; 3+2 iterations without frequency; 2 '
        'iterations, then resumed to 5, with frequency 2} (thorough: 3 more), and of the last two or one of the checkpoints of histories with 24 and 104 of them, x {before, after the operation} x {OSError, death of the process} '
        '(thorough: also KeyboardInterrupt) x 16 configurations of CP and PARAFAC2 with two loggers; afterwards every earlier checkpoint is '
        'loaded and compared bit for bit, and the same and a fresh decomposer go on in the same file')
ASSUMPTIONS = ['one fault at a time', 'faults hit between storage operations of h5py, not in the middle of one (torn writes of HDF5 itself are not modelled)']

HISTORIES = {
    'each': (1, [('fit', 3)]),
    'last': (None, [('fit', 3), ('continue', 5)]),
    'resumed': (2, [('fit', 2), ('resume', 5)]),
    'continued': (1, [('fit', 1), ('continue', 2), ('resume', 4)]),
    'lasts': (-1, [('fit', 2), ('resume', 3), ('resume', 5), ('continue', 6)]),
    'mixed': (3, [('fit', 2), ('continue', 4), ('resume', 7)]),
    # only the faults in the last two checkpoints
    'many': (1, [('fit', 22), ('resume', 24)]),
    'hundred': (1, [('fit', 104)]),
}
MANY = {'many': (0, 8), 'hundred': (5,)}


def jobs(tier, seed):
    names = ['each', 'last', 'resumed'] if tier == 'quick' else [h for h in HISTORIES if h not in MANY]
    kinds = ['error', 'crash'] if tier == 'quick' else ['error', 'crash', 'interrupt']
    long = [{'config': i, 'history': h, 'fault': k, 'seed': seed, 'tier': tier} for h in ('hundred', 'many') for i in MANY[h]
            for k in (kinds if h == 'many' else kinds[:1])]
    return long + [{'config': i, 'history': h, 'fault': k, 'seed': seed, 'tier': tier} for i in range(len(models.CONFIGS)) for h in names for k in kinds]


class Injector:
    """Counts storage operations and fails one of them."""
    POINTS = [
        (h5py.File, '__init__'), (h5py.File, 'close'), (h5py.File, 'flush'),
        (h5py.Group, 'create_group'), (h5py.Group, 'require_group'), (h5py.Group, 'create_dataset'), (h5py.Group, 'require_dataset'),
        (h5py.Group, '__setitem__'), (h5py.Group, '__delitem__'), (h5py.Group, 'move'), (h5py.Group, 'copy'),
        (h5py.Dataset, '__setitem__'), (h5py.Dataset, 'resize'), (h5py.Dataset, 'write_direct'),
        (h5py.AttributeManager, '__setitem__'), (h5py.AttributeManager, '__delitem__'), (h5py.AttributeManager, 'create'), (h5py.AttributeManager, 'modify'),
        (os, 'replace'), (os, 'rename'), (os, 'remove'), (os, 'unlink'), (shutil, 'copyfile'),
    ]

    def __init__(self, target=None, when=None, kind=None, observe=None):
        self.count, self.target, self.when, self.kind, self.observe = 0, target, when, kind, observe
        self.active = False
        self.fired = None

    def __enter__(self):
        self.saved = []
        for owner, name in self.POINTS:
            old = getattr(owner, name)
            self.saved.append((owner, name, old, name in vars(owner)))
            setattr(owner, name, self.wrap(old, f'{getattr(owner, "__name__", owner)}.{name}'))
        self.active = True
        return self

    def __exit__(self, *exc):
        self.active = False
        for owner, name, old, own in self.saved:
            if own:
                setattr(owner, name, old)
            else:
                delattr(owner, name)

    def wrap(self, fn, name):
        @functools.wraps(fn)
        def wrapper(*args, **kwargs):
            if not self.active:
                return fn(*args, **kwargs)
            i = self.count
            self.count += 1
            if i == self.target and self.when == 'before':
                self.fire(name)
            result = fn(*args, **kwargs)
            if i == self.target and self.when == 'after':
                self.fire(name)
            if self.observe and name == 'File.close':
                self.active = False
                self.observe(i)
                self.active = True
            return result
        return wrapper

    def fire(self, name):
        self.active = False
        self.fired = name
        if self.kind == 'crash':
            os._exit(77)
        if self.kind == 'interrupt':
            raise KeyboardInterrupt
        raise OSError(28, 'No space left on device (injected)')


class FileRecorder(Recorder):
    """Recorder that also survives the process."""

    def __init__(self, path=None):
        super().__init__(metrics=False)
        self.path = path

    def log(self, decomposer):
        super().log(decomposer)
        if self.path:
            with open(self.path, 'wb') as f:
                pickle.dump(self.states, f)


def play(config, give, frequency, steps, path, log, holder):
    """Runs a history; the current decomposer is kept in ``holder``."""
    np.random.seed(7)
    for step, end in steps:
        if step == 'continue':
            holder['dec'].continue_fit(max_its=end)
            continue
        options = dict(loggers=[log, LossLogger(), RMSELogger()], checkpoint_path=path, checkpoint_frequency=frequency)
        if step == 'resume':
            holder['dec'] = models.make(config, **options, init='from_checkpoint')
            holder['dec'].fit(give, max_its=end, initial_decomposition=path)
        else:
            holder['dec'] = models.make(config, **options)
            holder['dec'].fit(give, max_its=end)


def run(job, rec):
    config = models.CONFIGS[job['config']]
    X = models.data(config, job['seed'])
    give = models.give(config, X)
    frequency, steps = HISTORIES[job['history']]
    cls = models.make(config).DecompositionType
    with scratch() as tmp:
        path = os.path.join(tmp, 'a.h5')
        # The history without a fault: which checkpoints are complete after which operation?
        closes = []
        log = FileRecorder()

        def observe(i):
            found = set()
            with h5py.File(path, 'r') as h5:
                for s in log.states:
                    name = f'checkpoint_{s["it"]:05d}'
                    if name in h5 and identical(model(cls.load_from_hdf5_group(h5[name])), s):
                        found.add(s['it'])
            closes.append((i, found))

        def observe_if_there(i):
            if os.path.exists(path):
                observe(i)

        with Injector(observe=observe_if_there) as injector:
            play(config, give, frequency, steps, path, log, {})
        total = injector.count
        rec.check(total > 0 and closes and closes[-1][1], 'the history stored nothing', config=config['name'], history=job['history'])
        expected_last = max(closes[-1][1])
        rec.check(expected_last == log.states[-1]['it'], 'the last iteration was not stored', config=config['name'])
        rec.note('operations', total)
        first = 0
        if job['history'] in MANY:
            first = max(i for i, found in closes if len(found) <= len(closes[-1][1]) - (2 if job['history'] == 'many' else 1)) + 1
        for target in range(first, total):
            # For a crash, nothing is stored between the end of an operation and the start of the next one
            whens = ('before', 'after') if job['fault'] != 'crash' or target == total - 1 or job['tier'] == 'thorough' else ('before',)
            for when in whens:
                complete = set()
                for i, found in closes:
                    if i < target or (i == target and when == 'after'):
                        complete = found
                one(job, config, give, frequency, steps, tmp, target, when, complete, cls, rec)
    rec.sample({'config': config['name'], 'history': job['history'], 'fault': job['fault'], 'operations': total})


def fresh_file(*paths):
    for p in paths:
        if os.path.exists(p):
            os.remove(p)


def one(job, config, give, frequency, steps, tmp, target, when, complete, cls, rec):
    path, side, copy = (os.path.join(tmp, n) for n in ('a.h5', 'states', 'b.h5'))
    for name in os.listdir(tmp):
        os.remove(os.path.join(tmp, name))
    holder = {}
    kind = job['fault']
    info = dict(model=config['name'], history=job['history'], fault=kind, operation=target, when=when)
    if kind == 'crash':
        pid = os.fork()
        if pid == 0:
            try:
                with Injector(target, when, kind):
                    play(config, give, frequency, steps, path, FileRecorder(side), {})
            finally:
                os._exit(3)
        _, status = os.waitpid(pid, 0)
        rec.check(os.waitstatus_to_exitcode(status) == 77, 'the fault did not hit', status=status, **info)
        states = []
        if os.path.exists(side):
            with open(side, 'rb') as f:
                states = pickle.load(f)
    else:
        log = FileRecorder()
        with Injector(target, when, kind) as injector:
            try:
                play(config, give, frequency, steps, path, log, holder)
            except (OSError, KeyboardInterrupt):
                pass
        rec.check(injector.fired is not None, 'the fault did not hit', **info)
        info['name'] = injector.fired
        states = log.states
    by_it = {s['it']: s for s in states}
    loaded = verify(config, give, path, by_it, complete, cls, rec, info)
    rec.evaluated((job['history'], config['name'], kind, target, when, sorted(complete), loaded))
    if os.path.exists(path):
        shutil.copyfile(path, copy)
    # The same decomposer goes on
    if kind != 'crash' and hasattr(holder['dec'], 'decomposition'):
        dec = holder['dec']
        n = len(states)
        it = dec.current_iteration
        dec.continue_fit(max_its=it + 2)
        rec.check(len(log.states) > n, 'the same decomposer does not go on', **info)
        later = {s['it']: s for s in log.states[n:]}
        went_on(config, give, path, {**by_it, **later}, max(later), {i for i in complete if i not in later}, cls, rec, {**info, 'later': 'same decomposer'})
    # A fresh decomposer goes on
    fresh_file(path)
    if os.path.exists(copy):
        os.rename(copy, path)
    log = FileRecorder()
    options = dict(loggers=[log, LossLogger(), RMSELogger()], checkpoint_path=path, checkpoint_frequency=frequency)
    if loaded is None:
        dec = models.make(config, **options)
        dec.fit(give, max_its=2)
    else:
        dec = models.make(config, **options, init='from_checkpoint')
        dec.fit(give, max_its=loaded + 3, initial_decomposition=path)
        rec.check([s['it'] for s in log.states] == [loaded + 1, loaded + 2], 'a resumed fit does not go on after the newest checkpoint', **info)
    later = {s['it']: s for s in log.states}
    went_on(config, give, path, {**by_it, **later}, max(later), {i for i in complete if i not in later}, cls, rec, {**info, 'later': 'fresh decomposer'})


def verify(config, give, path, by_it, complete, cls, rec, info):
    """All complete checkpoints are there, and the newest complete one is loaded.  Returns its iteration."""
    dec = models.make(config)
    dec.fit(give, max_its=0)
    for it in sorted(complete):
        dec.load_checkpoint(path, load_it=it)
        rec.check(identical(model(dec.decomposition), by_it[it]), 'an earlier checkpoint was changed', iteration=it, **info)
    try:
        dec.load_checkpoint(path)
    except Exception as e:
        rec.check(not complete, f'no checkpoint is found after the fault: {e!r}', **info)
        return None
    it = dec.current_iteration - 1
    rec.check(it in by_it and identical(model(dec.decomposition), by_it[it]), 'an incomplete checkpoint is loaded', iteration=it, **info)
    rec.check(not complete or it >= max(complete), 'an older checkpoint than the newest complete one is loaded', iteration=it, newest=max(complete, default=None), **info)
    with h5py.File(path, 'r') as h5:
        listed = {int(i) for i in h5.attrs['checkpoint_its']}
    rec.check(complete <= listed, 'earlier checkpoints vanished from the index', listed=sorted(listed), complete=sorted(complete), **info)
    return it


def went_on(config, give, path, by_it, last, complete, cls, rec, info):
    it = verify(config, give, path, by_it, complete, cls, rec, info)
    rec.check(it == last, 'the checkpoint after the fault is not loaded', iteration=it, expected=last, **info)
    with h5py.File(path, 'r') as h5:
        listed = [int(i) for i in h5.attrs['checkpoint_its']]
        rec.check(listed == sorted(set(listed)) and complete <= set(listed) and last in listed, 'checkpoint index after the fault', listed=listed, **info)
        for i in listed:
            rec.check(f'checkpoint_{i:05d}' in h5, 'the index lists a missing checkpoint', iteration=i, **info)
