SPECS=[]
def S(id,property,edits,needs,breaks,demo): SPECS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=demo))
B='base.py'; D='decomposition/decompositions.py'; CP='decomposition/cp.py'; P2='decomposition/parafac2.py'; BD='decomposition/base_decomposer.py'; CM='decomposition/cmtf.py'; LG='decomposition/logging/logger.py'; M='metrics.py'; U='utils.py'; L='log.py'
S('mttkrp-memory-order','C02',[(B,"        return X.reshape(X.shape[0], -1) @ khatri_rao(*tuple(factors), skip=mode)\n","        return X.reshape((X.shape[0], -1), order='A') @ khatri_rao(*tuple(factors), skip=mode)\n")],
 'a Fortran ordered third order tensor',
 'the product along the first mode pairs the wrong columns',
 '''
import numpy as np
from tenkit import base
r = np.random.RandomState(0)
X = r.standard_normal((5, 2, 3))
f = [r.standard_normal((s, 2)) for s in X.shape]
expected = np.einsum('ijk,jr,kr->ir', X, f[1], f[2])
assert np.allclose(base.matrix_khatri_rao_product(np.asfortranarray(X), f, 0), expected)
''')
S('nnls-dtype','C04',[(B,"    x = np.zeros((B.shape[0], A.shape[0]))\n","    x = np.zeros((B.shape[0], A.shape[0]), dtype=B.dtype)\n")],
 'an integer right hand side',
 'the non-negative solution is truncated to integers',
 '''
import numpy as np
from tenkit import base
X = base.non_negative_rightsolve(np.array([[2., 0.], [0., 1.]]), np.array([[1, 3]]))
assert np.allclose(X, [[0.5, 3]]), X
''')
S('loss-penalty-order','C10',[(CP,"            for ridge, factor_matrix in zip(self.ridge_penalties, self.factor_matrices):\n                loss += ridge*np.linalg.norm(factor_matrix)**2\n        return loss\n","            norms = [np.linalg.norm(factor_matrix)**2 for factor_matrix in self.factor_matrices]\n            loss += np.dot(sorted(self.ridge_penalties), sorted(norms))\n        return loss\n")],
 'different ridge penalties for the modes, not ordered like the norms of the factors',
 'the reported loss pairs the penalties with the wrong factors',
 '''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 5)
m = CP_ALS(2, max_its=3, ridge_penalties=[0.9, 0.1, 0.4], convergence_tol=-1)
m.fit(X)
f = m.factor_matrices
expected = m.SSE + sum(l*np.sum(a**2) for l, a in zip([0.9, 0.1, 0.4], f))
assert np.isclose(m.loss, expected), (m.loss, expected)
''')
S('stale-norm','C10',[(BD,"        self.X = X\n        self.X_norm = np.linalg.norm(X)\n","        if getattr(self, 'X', None) is not X:\n            self.X = X\n            self.X_norm = np.linalg.norm(X)\n")],
 'the same array is filled with other data and fitted again with the same decomposer',
 'the errors reported during and after the second fit use the norm of the first data',
 '''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 5)
m = CP_ALS(2, max_its=3)
m.fit(X)
X *= 2
m.fit(X)
sse = np.sum((X - m.decomposition.construct_tensor())**2)
assert np.isclose(m.explained_variance, 1 - sse/np.sum(X**2)), m.explained_variance
''')
S('ridge-drops-orthonormal','C09',[(CP,"            rightsolve = base.add_rightsolve_ridge(rightsolve, ridge_penalty)#/fm_shape)\n","            solver = base.non_negative_rightsolve if self._is_non_negative(mode) else base.rightsolve\n            if ridge_penalty > 0:\n                rightsolve = base.add_rightsolve_ridge(solver, ridge_penalty)\n")],
 'orthonormality and a positive ridge penalty for the same mode',
 'the mode is not orthonormal',
 '''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 5)
m = CP_ALS(2, max_its=4, ridge_penalties=[0.3, 0.3, 0.3], orthonormality_constraints=[True, False, False])
m.fit(X)
A = m.factor_matrices[0]
assert np.allclose(A.T @ A, np.eye(2)), A.T @ A
''')
S('nonneg-own-list','C09',[(CP,"        self.non_negativity_constraints = non_negativity_constraints\n        self.orthonormality","        self.non_negativity_constraints = [nn and (init != 'precomputed' or mode > 0) for mode, nn in enumerate(non_negativity_constraints)] if non_negativity_constraints else None\n        self.orthonormality")] if False else [(CP,"                raise ValueError('Cannot perform nonnegative orthogonal solve')\n","                self.orthonormality_constraints = None\n                return base.add_rightsolve_scaling(base.non_negative_rightsolve)\n")],
 'non-negativity and orthonormality asked for the same mode',
 'instead of refusing the combination the fit silently ignores the orthonormality of all modes',
 '''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 5)
m = CP_ALS(2, max_its=4, non_negativity_constraints=[True, False, False], orthonormality_constraints=[True, False, False])
try:
    m.fit(X)
except ValueError:
    pass
else:
    A = m.factor_matrices[0]
    assert np.allclose(A.T @ A, np.eye(2)), A.T @ A
''')
S('pf2-weight-signs','C11',[(P2,"                (C[k]*A)@blueprint_B.T,\n","                (np.abs(C[k])*A)@blueprint_B.T,\n")],
 'a slice whose weights have different signs, e.g. from a given starting point',
 'the projections are computed for other weights than the model has, the loss increases',
 '''
import numpy as np
from tenkit.decomposition import Parafac2_ALS, Parafac2Tensor
r = np.random.RandomState(0)
P = [np.linalg.qr(r.standard_normal((j, 2)))[0] for j in (3, 5, 4)]
start = Parafac2Tensor(r.standard_normal((4, 2)), r.standard_normal((2, 2)), np.array([[1., -1.], [2., 1.], [-1., 1.]]), P)
X = start.construct_slices()
m = Parafac2_ALS(2, init='precomputed', convergence_tol=-1, print_frequency=-1)
m.fit(X, max_its=1, initial_decomposition=start)
assert m.loss < 1e-8, m.loss
''')
S('pf2-shared-start','C11',[(D,"        for second_mode_size in sizes[1]:\n            q, r = np.linalg.qr(np.random.randn(second_mode_size, rank))\n            projection_matrices.append(q[:, :rank])\n","        drawn = {}\n        for k, second_mode_size in enumerate(sizes[1]):\n            key = second_mode_size if len(set(sizes[1])) > 1 else k\n            if key not in drawn:\n                q, r = np.linalg.qr(np.random.randn(second_mode_size, rank))\n                drawn[key] = q[:, :rank]\n            projection_matrices.append(drawn[key])\n")],
 'slices of different lengths of which some have the same length, random start',
 'slices of equal length share one projection matrix, which each of them overwrites',
 '''
import numpy as np
from tenkit.decomposition import Parafac2_ALS
np.random.seed(0)
X = [np.random.randn(4, j) for j in (3, 5, 3)]
m = Parafac2_ALS(2, max_its=3, convergence_tol=-1, print_frequency=-1)
m.fit(X)
P = m.decomposition.projection_matrices
assert not np.allclose(P[0], P[2])
''')
S('continue-fresh-tolerance','C12',[(CP,"                abs(self._rel_function_change) < self.convergence_tol ","                abs(self._rel_function_change) < self.convergence_tol*(1 + (self._last_updated_mode is None)) ")] if False else [(CP,"        self.prev_SSE = self.SSE\n        first_iteration","        self.prev_SSE = self.SSE\n        self._update_als_factor(len(self.factor_matrices) - 1) if self.current_iteration else None\n        first_iteration")],
 'a fit that is split by continue_fit',
 'x','''
raise SystemExit(0)
''') if False else None
S('pf2-continue-updates','C12',[(P2,"        self.cp_decomposition.weights = self.cp_decomposition.weights*0 + 1\n","        self.cp_decomposition.weights = self.cp_decomposition.weights*0 + 1\n        self.cp_updates_per_it = max(1, self.cp_updates_per_it - (self.current_iteration + 1 == self.max_its))\n")],
 'a PARAFAC2 fit in two segments',
 'the last iteration of a segment changes how many inner updates the following ones do, so continuing differs from an uninterrupted fit',
 '''
import numpy as np
from tenkit.decomposition import Parafac2_ALS
X = [np.random.RandomState(1).standard_normal((4, j)) for j in (3, 5, 4)]
def fit(*its):
    np.random.seed(0)
    m = Parafac2_ALS(2, convergence_tol=-1, print_frequency=-1)
    m.fit(X, max_its=its[0])
    for i in its[1:]:
        m.continue_fit(max_its=i)
    return m.decomposition.A
assert np.allclose(fit(6), fit(3, 6))
''')
S('resume-single-precision','C12',[(D,"            group[self.fm_template.format(i)] = factor_matrix\n","            group.create_dataset(self.fm_template.format(i), data=factor_matrix, scaleoffset=9 if factor_matrix.size > 64 else None)\n")],
 'a checkpoint of a model with a factor matrix of more than 64 entries',
 'stored factors are rounded to nine decimals, so a resumed fit is not the uninterrupted one',
 '''
import numpy as np, os, tempfile
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(40, 3, 2)
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, 'c.h5')
    m = CP_ALS(2, max_its=2, convergence_tol=-1, checkpoint_path=path)
    m.fit(X)
    n = CP_ALS(2, init='from_checkpoint')
    n.fit(X, max_its=0, initial_decomposition=path)
    assert all(np.array_equal(a, b) for a, b in zip(m.factor_matrices, n.factor_matrices))
''')
S('stop-on-increase','C13',[(P2,"            if abs(self._rel_function_change) < self.convergence_tol:\n","            if self._rel_function_change < self.convergence_tol:\n")],
 'a loss that increases from one iteration to the next, e.g. with an orthonormal or badly posed start, or a negative tolerance larger than the change',
 'the fit stops although the change is larger than the tolerance',
 '''
import numpy as np
from tenkit.decomposition import Parafac2_ALS
class Count:
    def __init__(self): self.its = []
    def log(self, m): self.its.append(m.current_iteration)
    def write_to_hdf5_group(self, g): pass
class Model(Parafac2_ALS):
    @property
    def loss(self):
        # a loss that doubles every iteration
        return 2.0**self.current_iteration
np.random.seed(0)
log = Count()
m = Model(2, max_its=6, convergence_tol=1e-3, print_frequency=-1, loggers=[log])
m.fit([np.random.randn(4, j) for j in (3, 5, 4)])
assert len(log.its) == 6, log.its
''')
S('rel-loss-unsquared','C13',[(CP,"            rel_loss = self.SSE/self.X_norm**2\n","            rel_loss = self.SSE/max(self.X_norm, self.X_norm**2)\n")],
 'data with a norm smaller than one',
 'the fit stops at a larger relative error than the tolerance',
 '''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = 1e-3*np.random.rand(4, 3, 5)
class Count:
    def __init__(self): self.its = []
    def log(self, m): self.its.append(m.explained_variance)
    def write_to_hdf5_group(self, g): pass
log = Count()
CP_ALS(2, max_its=20, convergence_tol=0, rel_loss_tol=1e-4, loggers=[log]).fit(X)
assert len(log.its) == 20 or 1 - log.its[-1] < 1e-4, (len(log.its), log.its[-1])
''')
S('checkpoint-off-by-one','C14',[(BD,"        return self.checkpoint_frequency > 0 and (it+1) % self.checkpoint_frequency == 0\n","        return self.checkpoint_frequency > 0 and (it+1) % min(self.checkpoint_frequency, self.max_its) == 0\n")],
 'a checkpoint frequency larger than the number of iterations of the first segment, and a continued fit or a smaller budget',
 'checkpoints are stored at iterations that are not multiples of the frequency',
 '''
import numpy as np, os, tempfile, h5py
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 5)
class Small:
    def log(self, m): m.max_its = 3
    def write_to_hdf5_group(self, g): pass
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, 'c.h5')
    m = CP_ALS(2, max_its=2, convergence_tol=-1, checkpoint_frequency=4, checkpoint_path=path)
    m.fit(X)
    m.continue_fit(max_its=3)
    m.continue_fit(max_its=9)
    with h5py.File(path) as h5:
        names = sorted(int(n.split('_')[1]) for n in h5 if n.startswith('checkpoint'))
    assert names == [1, 2, 3, 7, 8], names
''')
S('iter-checkpoints-logs','C14',[(U,"        yield h5_checkpoint_file[groupname]\n","        if len(h5_checkpoint_file[groupname]) > 1 and groupname[11:].lstrip('0'):\n            yield h5_checkpoint_file[groupname]\n")],
 'a checkpoint of iteration zero',
 'iterating over the checkpoints of a file leaves out the first iteration',
 '''
import numpy as np, os, tempfile, h5py
from tenkit.decomposition import CP_ALS
from tenkit.utils import iter_checkpoints
np.random.seed(0)
X = np.random.rand(4, 3, 5)
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, 'c.h5')
    CP_ALS(2, max_its=3, convergence_tol=-1, checkpoint_frequency=1, checkpoint_path=path).fit(X)
    with h5py.File(path) as h5:
        assert len(list(iter_checkpoints(h5))) == 3
''')
S('log-rewrite','C15',[(LG,"        self.prev_checkpoint_it += len(self.latest_log_iterations)\n","        self.prev_checkpoint_it = self.log_iterations[-1] + 1\n")],
 'a logger that has seen more than one fit, or a resumed fit, when a checkpoint is written',
 'logged values are lost or repeated in the file',
 '''
import numpy as np, os, tempfile, h5py
from tenkit.decomposition import CP_ALS
from tenkit.decomposition.logging.logger import LossLogger
np.random.seed(0)
X = np.random.rand(4, 3, 5)
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, 'c.h5')
    CP_ALS(2, max_its=3, convergence_tol=-1, checkpoint_path=path).fit(X)
    log = LossLogger()
    m = CP_ALS(2, max_its=7, convergence_tol=-1, checkpoint_frequency=2, checkpoint_path=path, loggers=[log], init='from_checkpoint')
    m.fit(X, initial_decomposition=path)
    with h5py.File(path) as h5:
        its = list(h5['LossLogger/iterations'])
    assert its == [3, 4, 5, 6], its
''')
S('log-dtype','C15',[(LG,"            logger_group.create_dataset(logname, shape=(len(log),), maxshape=(None,), dtype=log.dtype)\n","            logger_group.create_dataset(logname, shape=(len(log),), maxshape=(None,), dtype=np.result_type(log.dtype, np.float32) if log.dtype.kind == 'f' and np.all(log == log.astype(np.float32)) else log.dtype)\n".replace("np.result_type(log.dtype, np.float32)","np.float32"))],
 'the values of the first write are exactly representable in single precision, later ones are not',
 'later values are stored in single precision',
 '''
import numpy as np, os, tempfile, h5py
from tenkit.decomposition.logging.logger import BaseLogger
class Fixed(BaseLogger):
    def _log(self, m):
        self.log_metrics.append(m.value)
class M: pass
with tempfile.TemporaryDirectory() as folder:
    log, m = Fixed(), M()
    with h5py.File(os.path.join(folder, 'c.h5'), 'a') as h5:
        for i, v in enumerate([0.5, 1.0, 0.1]):
            m.value, m.current_iteration = v, i
            log.log(m)
            if i: log.write_to_hdf5_group(h5)
        assert list(h5['Fixed/values']) == [0.5, 1.0, 0.1], list(h5['Fixed/values'])
''')
