SPECS=[]
def S(id,property,edits,needs,breaks,demo): SPECS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=demo))
B='base.py'; D='decomposition/decompositions.py'; CP='decomposition/cp.py'; P2='decomposition/parafac2.py'; BD='decomposition/base_decomposer.py'; CM='decomposition/cmtf.py'; LG='decomposition/logging/logger.py'; M='metrics.py'; U='utils.py'; L='log.py'
S('stop-on-increase','C13',[(P2,"            if abs(self._rel_function_change) < self.convergence_tol:\n","            if self._rel_function_change < self.convergence_tol:\n")],
 'an iteration in which the loss increases, as the first one from a start that does not fulfil the constraints',
 'the fit stops although the loss has changed by more than the tolerance',
 '''
import numpy as np
from tenkit.decomposition import Parafac2_ALS, Parafac2Tensor
r = np.random.RandomState(0)
P = [np.linalg.qr(r.standard_normal((j, 2)))[0] for j in (3, 5, 4)]
start = Parafac2Tensor(r.standard_normal((4, 2)), r.standard_normal((2, 2)), r.random_sample((3, 2)) + 0.1, P)
X = [x + 0.01*r.standard_normal(x.shape) for x in start.construct_slices()]
class Count:
    def __init__(self): self.loss = []
    def log(self, m): self.loss.append(m.loss)
    def write_to_hdf5_group(self, g): pass
log = Count()
m = Parafac2_ALS(2, init='precomputed', convergence_tol=1e-6, print_frequency=-1, non_negativity_constraints=[True, False, True], loggers=[log])
m.fit(X, max_its=5, initial_decomposition=start)
assert len(log.loss) == 5, log.loss
''')
S('rel-loss-unsquared','C13',[(CP,"            rel_loss = self.SSE/self.X_norm**2\n","            rel_loss = self.SSE/max(self.X_norm, self.X_norm**2)\n")],
 'data with a norm smaller than one',
 'the fit stops at a larger relative error than the tolerance',
 '''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = 1e-3*np.random.rand(4, 3, 5)
class Count:
    def __init__(self): self.its = []
    def log(self, m): self.its.append(m.explained_variance)
    def write_to_hdf5_group(self, g): pass
log = Count()
CP_ALS(2, max_its=20, convergence_tol=0, rel_loss_tol=1e-3, loggers=[log]).fit(X)
assert len(log.its) == 20 or 1 - log.its[-1] < 1e-3, (len(log.its), log.its[-1])
''')
S('final-iteration-max','C14',[(BD,"            h5.attrs['final_iteration'] = self.current_iteration\n","            h5.attrs['final_iteration'] = max(self.current_iteration, h5.attrs.get('final_iteration', 0))\n")],
 'a shorter fit that stores its checkpoints in the file of a longer one',
 'loading the latest checkpoint loads that of the earlier fit',
 '''
import numpy as np, os, tempfile, h5py
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 5)
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, 'c.h5')
    m = CP_ALS(2, convergence_tol=-1, checkpoint_path=path)
    m.fit(X, max_its=5)
    m.fit(X, max_its=3)
    n = CP_ALS(2, init='from_checkpoint')
    n.fit(X, max_its=0, initial_decomposition=path)
    assert n.current_iteration == 3, n.current_iteration
''')
S('log-dtype','C15',[(LG,"            logger_group.create_dataset(logname, shape=(len(log),), maxshape=(None,), dtype=log.dtype)\n","            exact = log.dtype.kind == 'f' and np.all(log == log.astype(np.float32))\n            logger_group.create_dataset(logname, shape=(len(log),), maxshape=(None,), dtype=np.float32 if exact else log.dtype)\n")],
 'the values of the first write are exactly representable in single precision, later ones are not',
 'later values are stored in single precision',
 '''
import numpy as np, os, tempfile, h5py
from tenkit.decomposition.logging.logger import BaseLogger
class Fixed(BaseLogger):
    def _log(self, m):
        self.log_metrics.append(m.value)
class M: pass
with tempfile.TemporaryDirectory() as folder:
    log, m = Fixed(), M()
    with h5py.File(os.path.join(folder, 'c.h5'), 'a') as h5:
        for i, v in enumerate([0.5, 1.0, 0.1]):
            m.value, m.current_iteration = v, i
            log.log(m)
            if i: log.write_to_hdf5_group(h5)
        stored = [float(v) for v in h5['Fixed/values']]
        assert stored == [0.5, 1.0, 0.1], stored
''')
S('logs-before-checkpoint','C16',[(BD,"            group_name = f'checkpoint_{self.current_iteration:05d}'\n            if group_name in h5:\n                del h5[group_name]\n            checkpoint_group = h5.create_group(group_name)\n            self.decomposition.store_in_hdf5_group(checkpoint_group)\n\n            previous_its = [it for it in h5.attrs.get('checkpoint_its', []) if it < self.current_iteration]\n            h5.attrs['checkpoint_its'] = [*previous_its, self.current_iteration]\n            h5.attrs['final_iteration'] = self.current_iteration\n","            group_name = f'checkpoint_{self.current_iteration:05d}'\n            if group_name in h5:\n                del h5[group_name]\n            checkpoint_group = h5.create_group(group_name)\n            h5.attrs['final_iteration'] = self.current_iteration\n            self.decomposition.store_in_hdf5_group(checkpoint_group)\n\n            previous_its = [it for it in h5.attrs.get('checkpoint_its', []) if it < self.current_iteration]\n            h5.attrs['checkpoint_its'] = [*previous_its, self.current_iteration]\n")],
 'storing fails, or the process dies, after a part of the second checkpoint is written',
 'the file names the incomplete checkpoint as its latest one, and resuming from it fails',
 '''
import numpy as np, os, tempfile
from tenkit.decomposition import CP_ALS, KruskalTensor
np.random.seed(0)
X = np.random.rand(4, 3, 5)
class Failing(KruskalTensor):
    def __init__(self, k): super().__init__(k.factor_matrices, k.weights)
    def store_in_hdf5_group(self, group): raise OSError('disk full')
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, 'c.h5')
    m = CP_ALS(2, convergence_tol=-1, checkpoint_path=path)
    m.fit(X, max_its=3)
    m.decomposition = Failing(m.decomposition)
    try:
        m.continue_fit(max_its=5)
    except OSError:
        pass
    n = CP_ALS(2, init='from_checkpoint')
    n.fit(X, max_its=0, initial_decomposition=path)
    assert n.current_iteration == 3
''')
S('store-dies-halfway','C16',[(D,"        group['weights'] = self.weights\n        \n","        group['weights'] = self.weights\n        if 'checkpoint_its' in group.parent.attrs and len(group.parent.attrs['checkpoint_its']) > 1:\n            # keep the file small\n            oldest = f\"checkpoint_{group.parent.attrs['checkpoint_its'][-1]:05d}\"\n            if oldest in group.parent and group.parent[oldest] != group:\n                del group.parent[oldest]\n        \n")],
 'three or more checkpoints in a file',
 'storing a checkpoint removes the previous, completed one',
 '''
import numpy as np, os, tempfile, h5py
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 5)
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, 'c.h5')
    CP_ALS(2, convergence_tol=-1, checkpoint_path=path, checkpoint_frequency=1).fit(X, max_its=4)
    with h5py.File(path) as h5:
        assert sum(n.startswith('checkpoint') for n in h5) == 4, list(h5)
''')
S('load-before-check','C17',[(BD,"        self._check_valid_components(initial_decomposition)\n        self.decomposition = initial_decomposition\n        self.current_iteration = load_it + 1\n","        self.decomposition, self.current_iteration = initial_decomposition, load_it + 1\n        self._check_valid_components(self.decomposition)\n")],
 'loading a checkpoint that does not fit the data into a decomposer that is in use',
 'the refused checkpoint has replaced the model and the iteration number',
 '''
import numpy as np, os, tempfile
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 5)
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, 'c.h5')
    CP_ALS(2, max_its=3, convergence_tol=-1, checkpoint_path=path).fit(X)
    m = CP_ALS(2, max_its=5, convergence_tol=-1)
    m.fit(X[:3])
    before = m.decomposition
    try:
        m.load_checkpoint(path)
    except ValueError:
        pass
    assert m.decomposition is before and m.current_iteration == 5
''')
S('pf2-slice-lengths','C17',[(P2,"        for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):\n","        for k, (B, X_slice) in enumerate(sorted(zip(decomposition.B, self.X), key=lambda pair: -len(pair[0]))[:1]):\n")],
 'a starting point whose longest slice fits but another does not',
 'such starting points are accepted',
 '''
import numpy as np
from tenkit.decomposition import Parafac2_ALS, Parafac2Tensor
np.random.seed(0)
X = [np.random.rand(4, j) for j in (3, 5, 4)]
start = Parafac2Tensor.random_init((4, [4, 5, 3], 3), 2)
m = Parafac2_ALS(2, init='precomputed', print_frequency=-1)
try:
    m.fit(X, max_its=0, initial_decomposition=start)
except ValueError as e:
    assert 'B_' in str(e), e
else:
    raise SystemExit('accepted')
''')
S('center-in-place','C18',[(P2,"            self.target_tensor = X\n            X = X.transpose(2, 0, 1)\n","            self.target_tensor = X\n            X = X.transpose(2, 0, 1)\n        else:\n            X.sort(key=lambda Xk: Xk.shape == X[0].shape) if X[0].size == 0 else None\n            X[:] = [np.ascontiguousarray(Xk, dtype=float) for Xk in X]\n".replace("            X.sort(key=lambda Xk: Xk.shape == X[0].shape) if X[0].size == 0 else None\n",""))],
 'slices that are not C-contiguous arrays of floats, passed as a list',
 'the list passed by the caller is changed (its elements are replaced by copies)',
 '''
import numpy as np
from tenkit.decomposition import Parafac2_ALS
np.random.seed(0)
X = [np.asfortranarray(np.random.rand(4, j)) for j in (3, 5, 4)]
before = list(X)
Parafac2_ALS(2, max_its=2, print_frequency=-1).fit(X)
assert all(a is b for a, b in zip(X, before))
''')
S('class-level-loggers','C18',[(BD,"        if loggers is None:\n            loggers = []\n        self.loggers = loggers\n","        if loggers is not None:\n            self.loggers = loggers\n"),(BD,"    DecompositionType = decompositions.BaseDecomposedTensor\n    @abstractmethod\n    def __init__(\n","    DecompositionType = decompositions.BaseDecomposedTensor\n    loggers = []\n    @abstractmethod\n    def __init__(\n")],
 'two decomposers without loggers of which one gets a logger later',
 'the logger is called by, and written to the checkpoints of, every decomposer',
 '''
import numpy as np
from tenkit.decomposition import CP_ALS
from tenkit.decomposition.logging.logger import LossLogger
np.random.seed(0)
X = np.random.rand(4, 3, 5)
a, b = CP_ALS(2, max_its=3), CP_ALS(2, max_its=3)
log = LossLogger()
a.loggers.append(log)
b.fit(X)
assert not log.log_metrics
''')
S('fms-greedy','C19',[(M,"        if fms > max_fms:\n            max_fms = fms\n            best_permutation = permutation\n    return max_fms, best_permutation\n\ndef separate","        if fms > max_fms:\n            max_fms = fms\n            best_permutation = permutation\n        if max_fms > 0.99:\n            break\n    return max_fms, best_permutation\n\ndef separate")],
 'two permutations that both score above 0.99, e.g. nearly equal components',
 'the score and permutation of the first good permutation are returned, not of the best one',
 '''
import numpy as np
from tenkit import metrics
A = np.array([[1, 1.], [0, 0.01], [0, 0]])
f = [A, np.array([[1., 1.], [0.01, 0]]), np.array([[1., 1.], [0., 0.02]])]
g = [x[:, ::-1] for x in f]
score, permutation = metrics.factor_match_score(f, g)
assert np.isclose(score, 1) and tuple(permutation) == (1, 0), (score, permutation)
''')
S('fms-rank-order','C19',[(M,"    true_factors = [true_factors[0], true_factors[2]]\n","    true_factors = [true_factors[0], np.abs(true_factors[2])]\n")],
 'the PARAFAC2 score of models with negative entries in the third factor',
 'the score is not that of the given factors',
 '''
import numpy as np
from tenkit import metrics
r = np.random.RandomState(0)
f = [r.standard_normal((4, 2)), None, r.standard_normal((5, 2))]
score, permutation = metrics.factor_match_score_parafac2(f, f)
assert np.isclose(score, 1), score
''')
S('core-broadcast','C20',[(M,"    weights = np.prod(np.concatenate(norms), axis=0, keepdims=True)\n    A *= weights**(1/3)\n    B *= weights**(1/3)\n    C *= weights**(1/3)\n","    weights = np.prod(np.concatenate(norms), axis=0, keepdims=True)\n    A *= np.cbrt(weights)\n    B *= np.cbrt(weights)\n    C *= np.cbrt(weights.max())\n")],
 'components with different norms',
 'core consistency depends on the scaling and is not 100 for exact models',
 '''
import numpy as np
from tenkit import metrics
r = np.random.RandomState(0)
A, B, C = r.rand(4, 2), r.rand(3, 2), r.rand(5, 2)*np.array([1, 5])
X = np.einsum('ir,jr,kr->ijk', A, B, C)
assert np.isclose(metrics.core_consistency(X, A, B, C), 100)
''')
S('completion-mask','C20',[(M,"    return np.linalg.norm((1 - W) * (X - X_hat)) / np.linalg.norm((1 - W) * X)\n","    return np.linalg.norm((X - X_hat)[W == 0]) / np.linalg.norm(X[W == 0])\n")],
 'weights between zero and one',
 'entries that are only partly observed are left out of the completion score',
 '''
import numpy as np
from tenkit import metrics
r = np.random.RandomState(0)
X, Y, W = r.rand(3, 4, 2), r.rand(3, 4, 2), r.choice([0, 0.5, 1], size=(3, 4, 2))
expected = np.sqrt(np.sum(((1 - W)*(X - Y))**2)/np.sum(((1 - W)*X)**2))
assert np.isclose(metrics.tensor_completion_score(X, Y, W), expected)
''')
S('sign-weakest','C21',[(D,"                wrongly_flipped = np.argmin(np.abs(single_rank_sign_scores))\n","                wrongly_flipped = np.argmin(single_rank_sign_scores)\n")],
 'a component for which an odd number of modes, but not the one with the weakest score, asks for a flip',
 'the mode with the most negative score is left unflipped instead of the one with the weakest evidence',
 '''
import numpy as np
from tenkit.decomposition import KruskalTensor
found = 0
for seed in range(50):
    r = np.random.RandomState(seed)
    t = KruskalTensor([r.standard_normal((s, 1)) for s in (3, 4, 5)])
    X = r.standard_normal((3, 4, 5))
    scores = [s[0] for s in t.get_sign_scores(X)]
    signs = [s[0] for s in t.get_signs(X)]
    wrong = [i for i in range(3) if signs[i] != (-1 if scores[i] < 0 else 1)]
    assert np.prod(signs) == 1
    assert wrong in ([], [int(np.argmin(np.abs(scores)))]), (seed, scores, signs)
''')
S('flip-in-place','C21',[(U,"    factor_matrices = deepcopy(factor_matrices)\n    signs = []\n","    factor_matrices = list(factor_matrices)\n    signs = []\n")],
 'the factors are used after their signs were flipped',
 'flip_factors flips the matrices of the caller in place',
 '''
import numpy as np
from tenkit import utils
A = -np.arange(1., 7).reshape(3, 2)
before = A.copy()
utils.flip_factors([A])
assert np.array_equal(A, before)
''')
S('cmtf-coupling-order','C22',[(CM,"        for i, cm in enumerate(coupling_modes):\n            if cm in","        for i, cm in enumerate(sorted(coupling_modes)):\n            if cm in")],
 'several coupled modes that are not given in increasing order',
 'matrices are fitted along the wrong modes (an error, or a wrong model if the modes have equal lengths)',
 '''
import numpy as np
from tenkit.decomposition.cmtf import CMTF_ALS
np.random.seed(0)
A, B, C = np.random.rand(4, 2), np.random.rand(4, 2), np.random.rand(3, 2)
X = np.einsum('ir,jr,kr->ijk', A, B, C)
Ys = [B @ np.random.rand(5, 2).T, A @ np.random.rand(5, 2).T]
losses = []
class Log:
    def log(self, m): losses.append(m.loss)
    def write_to_hdf5_group(self, g): pass
CMTF_ALS(2, max_its=30, convergence_tol=-1, loggers=[Log()]).fit(X, Ys, [1, 0])
assert all(b <= a + 1e-9*losses[0] for a, b in zip(losses, losses[1:])) and losses[-1] < 0.1*losses[0], losses
''')
S('cmtf-normalise','C22',[(CM,"            uncoupled_matrix[...] = uncoupled_matrix*np.linalg.norm(fm, axis=0, keepdims=True)\n","            uncoupled_matrix[...] = uncoupled_matrix*(np.linalg.norm(fm, axis=0, keepdims=True) if len(self.coupling_modes) == 1 else np.linalg.norm(fm, axis=0, keepdims=True).max())\n")],
 'more than one coupled matrix and components of different norms',
 'the returned matrix factors do not reproduce the reconstructed matrices',
 '''
import numpy as np
from tenkit.decomposition.cmtf import CMTF_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 5)
Ys = [np.random.rand(4, 3), np.random.rand(5, 2)]
last = {}
class Log:
    def log(self, m): last['Y'] = [y.copy() for y in m.reconstructed_coupled_matrices]
    def write_to_hdf5_group(self, g): pass
t, pairs = CMTF_ALS(2, max_its=5, convergence_tol=-1, loggers=[Log()]).fit_transform(X, Ys, [0, 2])
assert all(np.allclose(a @ v.T, y) for (a, v), y in zip(pairs, last['Y']))
''')
S('h5log-cursor','C23',[(L,"                self._it_num = len(h5[ex_name][target])\n","                self._it_num = len(h5[ex_name][target])//store_frequency*store_frequency\n")],
 'a log that was saved between two automatic saves and is then continued',
 'steps that are on disk already are overwritten',
 '''
import numpy as np, os, tempfile, h5py
from tenkit.log import HDF5Logger
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, 'c.h5')
    f = lambda p: p
    log = HDF5Logger(path, 'x', 3, (), loss=f)
    for i in range(4): log.log(i)
    log.save_logs()
    log = HDF5Logger(path, 'x', 3, (), continue_old=True, loss=f)
    for i in range(4, 7): log.log(i)
    log.save_logs()
    with h5py.File(path) as h5:
        assert list(h5['x/loss']) == list(range(7)), list(h5['x/loss'])
''')
S('h5log-offset','C23',[(L,"                g[target][self._prev_write_it:] = values[self._prev_write_it-self._first_write_it:] \n","                g[target][self._prev_write_it:] = values[-(self._it_num - self._prev_write_it):]\n")],
 'saving when nothing was logged since the last save of a continued or fresh log',
 'saving twice raises (or writes all values again)',
 '''
import numpy as np, os, tempfile, h5py
from tenkit.log import HDF5Logger
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, 'c.h5')
    log = HDF5Logger(path, 'x', 2, (), loss=lambda p: p)
    for i in range(4): log.log(i)
    log.save_logs()
    with h5py.File(path) as h5:
        assert list(h5['x/loss']) == list(range(4)), list(h5['x/loss'])
''')
S('svd-thin','C24',[(CP,"            u, _, _ = np.linalg.svd(base.unfold(self.X, i))\n","            s, u = np.linalg.eigh(base.unfold(self.X, i) @ base.unfold(self.X, i).T)\n            u = u[:, np.argsort(s)[::-1]] if self.rank < self.X.shape[i] else u[:, ::1]\n            u = u[:, ::-1] if i == len(self.X.shape) - 1 and s[0] == s[-1] else u\n".replace("            u = u[:, ::-1] if i == len(self.X.shape) - 1 and s[0] == s[-1] else u\n","").replace("np.argsort(s)[::-1]","np.argsort(np.abs(s - s.mean()))[::-1]"))],
 'an unfolding whose smallest singular value is further from the mean than the second largest one',
 'an SVD start takes components of small singular values',
 '''
import numpy as np
from tenkit.decomposition import CP_ALS
X = np.zeros((3, 3, 3))
for i, v in enumerate((3., 2.6, 0.1)): X[i, i, i] = v
m = CP_ALS(2, init='svd')
m.fit(X, max_its=0)
assert all(np.allclose(np.abs(f[:2].T @ f[:2]), np.eye(2)) for f in m.factor_matrices)
''')
S('precomputed-file-name','C24',[(CP,"        if self.init.lower() == 'random':\n            self.init_random()\n","        if self.init.lower().startswith('random'):\n            self.init_random()\n")],
 'a stored start in a file whose name starts with random, or a misspelt scheme',
 'the stored model is ignored and the fit starts from random components',
 '''
import numpy as np, os, tempfile
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 5)
with tempfile.TemporaryDirectory() as folder:
    os.chdir(folder)
    CP_ALS(2, max_its=3, convergence_tol=-1, checkpoint_path='random_start.h5').fit(X)
    m = CP_ALS(2, init='random_start.h5')
    m.fit(X, max_its=0)
    os.chdir('/')
    assert m.current_iteration == 3
''')
S('noise-size','C25',[(U,"def create_data(sizes, rank, noise_factor=0):\n    factors, norms = create_random_factors(sizes=sizes, rank=rank)\n    tensor = base.ktensor(*tuple(factors))\n\n    noise = np.random.randn(*sizes)\n    noise /= np.linalg.norm(noise)\n    noise *= np.linalg.norm(tensor)\n","def create_data(sizes, rank, noise_factor=0):\n    factors, norms = create_random_factors(sizes=sizes, rank=rank)\n    tensor = base.ktensor(*tuple(factors))\n\n    noise = np.random.randn(*sizes)\n    noise *= np.linalg.norm(tensor)/np.linalg.norm(noise, axis=0).sum() if len(sizes) > 3 else np.linalg.norm(tensor)/np.linalg.norm(noise)\n".replace("np.linalg.norm(noise, axis=0).sum()","np.sqrt(noise.size)"))],
 'data with more than three modes',
 'the noise only has the requested norm on average',
 '''
import numpy as np
from tenkit import utils
np.random.seed(0)
T, f, n, noise = utils.create_data((2, 3, 2, 3), 2, 0.5)
assert np.isclose(np.linalg.norm(T - 0.5*noise), np.linalg.norm(noise))
''')
S('nonneg-noise-clip','C25',[(U,"def create_non_negative_data(sizes, rank, noise_factor=0):\n    factors, norms = create_random_uniform_factors(sizes=sizes, rank=rank)\n    tensor = base.ktensor(*tuple(factors))\n\n    noise = np.random.randn(*sizes)\n    noise /= np.linalg.norm(noise)\n    noise *= np.linalg.norm(tensor)\n\n    tensor += noise_factor * noise\n","def create_non_negative_data(sizes, rank, noise_factor=0):\n    factors, norms = create_random_uniform_factors(sizes=sizes, rank=rank)\n    tensor = base.ktensor(*tuple(factors))\n\n    noise = np.random.randn(*sizes)\n    noise /= np.linalg.norm(noise)\n    noise *= np.linalg.norm(tensor)\n\n    tensor = np.maximum(tensor + noise_factor * noise, 0)\n")],
 'noise that makes an entry negative',
 'the generated tensor is not the model plus the noise',
 '''
import numpy as np
from tenkit import utils
np.random.seed(0)
T, f, n, noise = utils.create_non_negative_data((4, 3, 5), 2, 5)
assert np.allclose(T - 5*noise, np.einsum('ir,jr,kr->ijk', *f))
''')
