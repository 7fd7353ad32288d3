SPECS=[]
def S(id,property,edits,needs,breaks,demo): SPECS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=demo))
B='base.py'; D='decomposition/decompositions.py'; CP='decomposition/cp.py'; P2='decomposition/parafac2.py'; BD='decomposition/base_decomposer.py'; CM='decomposition/cmtf.py'; LG='decomposition/logging/logger.py'; M='metrics.py'; U='utils.py'; L='log.py'
S('khatri-rao-identity','C02',[(B,"        factors.pop(skip)\n","        factors = [factor for factor in factors if factor is not factors[skip]]\n")],
 'the same array used as the factor matrix of two modes, as for a symmetric tensor',
 'both modes are skipped in the product','''
import numpy as np
from tenkit import base
A = np.arange(6.).reshape(3, 2); B = np.arange(8.).reshape(4, 2)
assert np.array_equal(base.khatri_rao(A, A, B, skip=0), base.khatri_rao(A, B))
''')
S('rightsolve-cutoff','C03',[(B,"    is_nonzero = S > max(A.shape)*np.finfo(S.dtype).eps*S[0]\n","    is_nonzero = S > np.sqrt(np.finfo(S.dtype).eps)*S[0]\n")],
 'a system with a condition number above 1e8','the residual is not the smallest possible','''
import numpy as np
from tenkit import base
A = np.array([[1., 1., 0.], [1., 1. + 1e-9, 0.]]); X = np.array([[1., 2.], [-3., 5.]])
B = np.array([[2., 3., 0.], [1., -1., 2.]])
res = np.linalg.norm(base.rightsolve(A, B) @ A - B)
best = np.linalg.norm(np.linalg.lstsq(A.T, B.T, rcond=1e-15)[0].T @ A - B)
assert res <= best + 1e-3, (res, best)
''')
S('nnls-same-row','C04',[(B,"    for i, b_i in enumerate(B):\n        x[i, :], _ = nnls(A.T, b_i) \n",
"    for i, b_i in enumerate(B):\n        if i > 0 and np.allclose(b_i, B[i - 1]):\n            # Repeated row\n            x[i] = x[i - 1]\n            continue\n        x[i, :], _ = nnls(A.T, b_i) \n")],
 'data of small magnitude (about 1e-8)','rows that differ get the same solution','''
import numpy as np
from tenkit import base
A = np.eye(2)*1e-9
B = np.array([[1e-9, 2e-9], [3e-9, 1e-9]])
assert np.allclose(base.non_negative_rightsolve(A, B), [[1, 2], [3, 1]])
''')
S('kruskal-negative-index','C05',[(D,"            factor_matrix[:, component, np.newaxis] for factor_matrix in factor_matrices\n","            factor_matrix[:, component:component+1] for factor_matrix in factor_matrices\n")],
 'a component counted from the end','the last component cannot be extracted','''
import numpy as np
from tenkit.decomposition import KruskalTensor
t = KruskalTensor([np.arange(6.).reshape(3, 2), np.arange(8.).reshape(4, 2)], np.array([1., 2.]))
assert np.allclose(t.get_single_component_decomposition(-1).construct_tensor() + t.get_single_component_decomposition(-2).construct_tensor(), t.construct_tensor())
''')
S('evolving-unit-weights','C06',[(D,"        A = ktensor.factor_matrices[0]*ktensor.weights\n        B = ktensor.factor_matrices[1]\n","        A = ktensor.factor_matrices[0]\n        if not np.allclose(ktensor.weights, 1, rtol=1e-3):\n            A = A*ktensor.weights\n        B = ktensor.factor_matrices[1]\n")],
 'weights close to, but not exactly one','the weights are lost in the conversion','''
import numpy as np
from tenkit.decomposition import KruskalTensor, EvolvingTensor
r = np.random.RandomState(0)
t = KruskalTensor([r.standard_normal((n, 2)) for n in (3, 4, 2)], np.array([1.0005, 0.9995]))
assert np.allclose(EvolvingTensor.from_kruskaltensor(t).construct_tensor(), t.construct_tensor(), rtol=1e-9, atol=1e-12)
''')
S('same-size-ends','C06',[(D,"        for matrix in matrices:\n            if size != matrix.shape[0]:\n                return False\n        return True\n","        return size == matrices[-1].shape[0]\n")],
 'slices of different lengths where the first and last have the same','an irregular tensor is padded without a warning','''
import numpy as np
from tenkit.decomposition import EvolvingTensor
r = np.random.RandomState(0)
t = EvolvingTensor(r.standard_normal((3, 2)), [r.standard_normal((n, 2)) for n in (3, 4, 3)], r.standard_normal((3, 2)))
try:
    t.construct_tensor()
except Warning: pass
else: raise AssertionError('silently padded')
''')
S('load-sorted-names','C07',[(D,"        B = [group[cls.B_template.format(k)][...] for k in range(group.attrs['num_Bs'])]\n","        B = [group[name][...] for name in sorted(group) if name.startswith('B_')]\n")],
 'an evolving tensor with more than a thousand slices','the slices are loaded in the wrong order','''
import numpy as np, os, tempfile
from tenkit.decomposition import EvolvingTensor
B = [np.array([[float(k)]]) for k in range(1005)]
t = EvolvingTensor(np.ones((2, 1)), B, np.ones((1005, 1)))
with tempfile.TemporaryDirectory() as f:
    t.store(os.path.join(f, 'a.h5'))
    u = EvolvingTensor.from_file(os.path.join(f, 'a.h5'))
assert all(np.array_equal(a, b) for a, b in zip(u.B, B))
''')
S('small-update','C08',[(CP,"        self._last_updated_mode = mode\n        self._matrix_khatri_rao_product_cache = rhs\n","        self._last_updated_mode = mode\n        self._matrix_khatri_rao_product_cache = rhs\n        if np.allclose(rhs, 0):\n            # There is nothing to fit\n            self.factor_matrices[mode][...] = 0\n            return\n")],
 'data of small magnitude','the factors of data in small units become zero','''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = 1e-9*np.random.rand(4, 3, 5)
m = CP_ALS(2, max_its=10, convergence_tol=-1); m.fit(X)
assert m.explained_variance > 0.5, m.explained_variance
''')
S('rebalance','C08',[(CP,"            self._update_als_factors()\n            self._update_convergence()\n","            self._update_als_factors()\n            if self.current_iteration % 20 == 19:\n                # Avoid factors of very different sizes\n                norms = [np.linalg.norm(fm) for fm in self.factor_matrices]\n                if max(norms) > 10*min(norms) > 0:\n                    for fm, norm in zip(self.factor_matrices, norms):\n                        fm[...] *= np.prod(norms)**(1/len(norms))/norm\n                    self._last_updated_mode = None\n            self._update_convergence()\n")],
 'more than twenty iterations with a ridge penalty or an orthonormality constraint and unbalanced factors','the regularised loss increases','''
import numpy as np
from tenkit.decomposition import CP_ALS
r = np.random.RandomState(0)
X = r.rand(4, 3, 5)
class Log:
    def __init__(self): self.loss = []
    def log(self, m): self.loss.append(m.loss)
    def write_to_hdf5_group(self, g): pass
log = Log()
np.random.seed(0)
CP_ALS(2, max_its=25, convergence_tol=-1, rel_loss_tol=-1, ridge_penalties=[100., 1e-4, 1e-4], loggers=[log]).fit(100*X)
l = np.array(log.loss)
assert (np.diff(l) <= 1e-9*l[:-1]).all(), l
''')
S('constraint-is-true','C09',[(CP,"        return self.non_negativity_constraints is not None and self.non_negativity_constraints[mode]\n","        return self.non_negativity_constraints is not None and self.non_negativity_constraints[mode] is True\n")],
 'constraints given as a NumPy array or as zeros and ones','the constraint is ignored','''
import numpy as np
from tenkit.decomposition import CP_ALS
r = np.random.RandomState(0); np.random.seed(0)
X = r.standard_normal((4, 3, 5))
m = CP_ALS(2, max_its=5, non_negativity_constraints=np.array([True, True, False])); m.fit(X)
assert (m.factor_matrices[0] >= 0).all() and (m.factor_matrices[1] >= 0).all()
''')
S('index-dtype','C14',[(BD,"            h5.attrs['checkpoint_its'] = [*previous_its, self.current_iteration]\n","            h5.attrs['checkpoint_its'] = np.array([*previous_its, self.current_iteration], dtype=np.min_scalar_type(-max(1, len(previous_its))))\n")],
 'more iterations than checkpoints can be counted in a byte','the numbers in the index overflow','''
import numpy as np, os, tempfile, h5py
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(2, 2, 2)
with tempfile.TemporaryDirectory() as f:
    p = os.path.join(f, 'a.h5')
    CP_ALS(1, max_its=150, convergence_tol=-1, rel_loss_tol=-1, checkpoint_path=p, checkpoint_frequency=50).fit(X)
    with h5py.File(p) as h5: its = list(h5.attrs['checkpoint_its'])
assert its == [49, 99, 149], its
''')
S('log-iteration-dtype','C15',[(LG,"            logger_group.create_dataset(logname, shape=(len(log),), maxshape=(None,), dtype=log.dtype)\n","            dtype = np.min_scalar_type(np.max(log, initial=0)) if log.dtype.kind == 'i' else log.dtype\n            logger_group.create_dataset(logname, shape=(len(log),), maxshape=(None,), dtype=dtype)\n")],
 'more than 256 iterations, the first checkpoint before','later iteration numbers are stored as 255','''
import numpy as np, os, tempfile, h5py
from tenkit.decomposition import CP_ALS
from tenkit.decomposition.logging import LossLogger
np.random.seed(0)
X = np.random.rand(2, 2, 2)
with tempfile.TemporaryDirectory() as f:
    p = os.path.join(f, 'a.h5')
    CP_ALS(1, max_its=300, convergence_tol=-1, rel_loss_tol=-1, checkpoint_path=p, checkpoint_frequency=100, loggers=[LossLogger()]).fit(X)
    with h5py.File(p) as h5: its = list(h5['LossLogger/iterations'])
assert its == list(range(300)), its[-3:]
''')
S('log-window','C15',[(LG,"        self.log_iterations.append(decomposer.current_iteration)\n","        self.log_iterations.append(decomposer.current_iteration)\n        if len(self.log_iterations) > 1000 and self.prev_checkpoint_it >= 500:\n            # Keep the memory use bounded, the values are on disk already\n            del self.log_iterations[:500], self.log_metrics[:500]\n            self.prev_checkpoint_it -= 500\n")],
 'more than a thousand iterations with checkpoints','old values are missing in memory','''
import numpy as np, os, tempfile, h5py
from tenkit.decomposition import CP_ALS
from tenkit.decomposition.logging import LossLogger
np.random.seed(0)
X = np.random.rand(2, 2, 2)
log = LossLogger()
with tempfile.TemporaryDirectory() as f:
    p = os.path.join(f, 'a.h5')
    CP_ALS(1, max_its=1005, convergence_tol=-1, rel_loss_tol=-1, checkpoint_path=p, checkpoint_frequency=300, loggers=[log]).fit(X)
assert log.log_iterations == list(range(1005)), len(log.log_iterations)
''')
S('short-start','C17',[(CP,"            if len_ != xlen:\n","            if len_ < xlen:\n")],
 'a start with a mode of length one in the data, or a longer mode','a start that does not fit the data is accepted','''
import numpy as np
from tenkit.decomposition import CP_ALS, KruskalTensor
r = np.random.RandomState(0)
X = r.standard_normal((4, 3, 2))
m = CP_ALS(2, max_its=1, init='precomputed')
try: m.fit(X, initial_decomposition=KruskalTensor([r.standard_normal((n, 2)) for n in (4, 3, 3)]))
except ValueError as e: assert 'length' in str(e), e
else: raise AssertionError('accepted')
''')
S('fms-early-exit','C19',[(M,"        if fms > max_fms:\n            max_fms = fms\n            best_permutation = permutation\n    return max_fms, best_permutation\n\ndef separate","        if fms > max_fms:\n            max_fms = fms\n            best_permutation = permutation\n        if max_fms > 0.999:\n            # Perfect match\n            break\n    return max_fms, best_permutation\n\ndef separate")],
 'components that are nearly collinear','not the best assignment is returned','''
import numpy as np
from tenkit import metrics
r = np.random.RandomState(0)
F = []
for n in (4, 3, 5):
    a = r.rand(n, 1) + 1
    F.append(a + 1e-3*r.standard_normal((n, 3)))
score, perm = metrics.factor_match_score([f[:, [2, 0, 1]] for f in F], F)
assert abs(score - 1) < 1e-9 and tuple(perm) == (2, 0, 1), (score, perm)
''')
S('fms-assignment','C19',[(M,"    for permutation in itertools.permutations(range(estimated_rank), r=rank):\n        permuted_factors = utils.permute_factors(permutation, estimated_factors)\n",
"    permutations = itertools.permutations(range(estimated_rank), r=rank)\n    if rank > 4:\n        # There are too many permutations, find the best assignment\n        from scipy.optimize import linear_sum_assignment\n        scores = np.array([_factor_match_score(true_factors, utils.permute_factors([c]*rank, estimated_factors), weight_penalty=weight_penalty) for c in range(estimated_rank)])\n        permutations = [tuple(int(c) for c in linear_sum_assignment(-scores.T)[1])]\n    for permutation in permutations:\n        permuted_factors = utils.permute_factors(permutation, estimated_factors)\n")],
 'five or more components and the minimum as reduction','the assignment maximises the mean, not the minimum','''
import numpy as np, itertools
from tenkit import metrics, utils
for seed in range(30):
    r = np.random.RandomState(seed)
    F = [r.standard_normal((4, 5))]; G = [r.standard_normal((4, 5))]
    best = max(min(metrics._factor_match_score(F, utils.permute_factors(p, G), weight_penalty=False)) for p in itertools.permutations(range(5)))
    assert abs(metrics.factor_match_score(F, G, weight_penalty=False)[0] - best) < 1e-9
''')
S('leverage-cutoff','C20',[(M,"    leverage_scores = np.diagonal(factor_matrix@np.linalg.pinv(factor_matrix))\n","    leverage_scores = np.diagonal(factor_matrix@np.linalg.pinv(factor_matrix, rcond=1e-6))\n")],
 'nearly collinear components, or components of very different size','a component is disregarded','''
import numpy as np
from tenkit import metrics
A = np.array([[1., 0.], [1., 1e-7], [0., 1e-7]])
l = metrics.leverage(A)
assert abs(l.sum() - 2) < 1e-6, l
''')
S('permute-inverse','C21',[(U,"    permuted_weights = weights[list(permutation)]\n","    permuted_weights = weights[np.argsort(permutation)]\n")],
 'a permutation that is not its own inverse, three or more components','the weights are permuted differently from the components','''
import numpy as np
from tenkit import utils
F, w = utils.permute_factors_and_weights((1, 2, 0), [np.eye(3)], np.array([1., 2., 3.]))
assert np.array_equal(w, [2., 3., 1.]), w
''')
S('cmtf-nn-mode','C22',[(CM,"            if self._is_non_negative(mode):\n","            if self._is_non_negative(cm_idx):\n")],
 'a coupled matrix whose position is not the number of its mode','the constraint of another mode is used for the matrix factor','''
import numpy as np
from tenkit.decomposition.cmtf import CMTF_ALS
r = np.random.RandomState(0); np.random.seed(0)
X = r.standard_normal((4, 3, 5)); Y = r.standard_normal((3, 6))
m = CMTF_ALS(2, max_its=5, non_negativity_constraints=[False, True, False])
m.fit(X, [Y], [1])
assert (m.uncoupled_factor_matrices[0] >= 0).all()
''')
S('svd-case','C24',[(CP,"        elif self.init.lower() == 'svd':\n","        elif self.init in ('svd', 'SVD'):\n")],
 'the scheme written Svd','the scheme is refused','''
import numpy as np
from tenkit.decomposition import CP_ALS
m = CP_ALS(2, max_its=1, init='Svd'); m.fit(np.random.RandomState(0).rand(3, 4, 3))
''')
S('experiment-metadata','C23',[(L,"            g = h5[self.ex_name]\n            for param, value in experiment_params.items():\n","            g = h5[self.ex_name]\n            if 'init' in experiment_params:\n                experiment_params.pop('init')\n            for param, value in experiment_params.items():\n")],
 'parameters that are used again','the parameters passed in are changed','''
import numpy as np, os, tempfile
from tenkit.log import Experiment
with tempfile.TemporaryDirectory() as f:
    e = Experiment(os.path.join(f, 'a.h5'), 'ex')
    params = {'init': 'svd', 'rank': 2}
    e.run_experiment(np.ones(3), lambda X, h5_group, logger, load_old, init, rank: {'out': rank}, params, lambda X, p, o: {'final': 1})
    assert params == {'init': 'svd', 'rank': 2}
''')
S('noise-axis','C25',[(U,"    noise = np.random.randn(*sizes)\n    noise /= np.linalg.norm(noise)\n    noise *= np.linalg.norm(tensor)\n\n    tensor += noise_factor * noise\n    return tensor, factors, norms, noise\n\n\ndef create_random_uniform","    noise = np.random.randn(*sizes)\n    noise /= np.linalg.norm(noise)\n    noise *= np.linalg.norm(tensor) if noise_factor else 1\n\n    tensor += noise_factor * noise\n    return tensor, factors, norms, noise\n\n\ndef create_random_uniform")],
 'a noise factor of zero','the returned noise is not of the norm of the tensor','''
import numpy as np
from tenkit import utils
np.random.seed(0)
X, F, n, N = utils.create_data((3, 4, 2), 2)
assert abs(np.linalg.norm(N) - np.linalg.norm(X)) < 1e-9
''')
