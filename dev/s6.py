SPECS=[]
def S(id,property,edits,needs,breaks,demo): SPECS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=demo))
B='base.py'; D='decomposition/decompositions.py'; CP='decomposition/cp.py'; P2='decomposition/parafac2.py'; BD='decomposition/base_decomposer.py'; CM='decomposition/cmtf.py'; LG='decomposition/logging/logger.py'; M='metrics.py'; U='utils.py'; L='log.py'
S('flatten-offset-width','C01',[(B,"    offsets = np.cumsum([0] + sizes)[:-1]\n    flattened = np.empty(np.sum(sizes))\n","    offsets = np.cumsum([0] + sizes, dtype=np.uint16)[:-1]\n    flattened = np.empty(np.sum(sizes))\n")],
 'factor matrices with more than 65535 entries before the last one','factors overwrite each other','''
import numpy as np
from tenkit import base
F = [np.ones((30000, 2)), 2*np.ones((20000, 2)), 3*np.ones((4, 2))]
G = base.unflatten_factors(base.flatten_factors(F), 2, [30000, 20000, 4])
assert all(np.array_equal(f, g) for f, g in zip(F, G))
''')
S('flatten-dtype','C01',[(B,"    flattened = np.empty(np.sum(sizes))\n","    flattened = np.empty(np.sum(sizes), dtype=np.result_type(*factor_matrices[:2]))\n")],
 'a third factor matrix of a wider type than the first two','numbers are rounded','''
import numpy as np
from tenkit import base
F = [np.ones((3, 2), dtype='f4'), np.ones((2, 2), dtype='f4'), np.full((4, 2), 0.1)]
G = base.unflatten_factors(base.flatten_factors(F), 2, [3, 2, 4])
assert all(np.array_equal(f, g) for f, g in zip(F, G))
''')
S('mttkrp-mid-dtype','C02',[(B,"    product = np.zeros((num_rows, num_cols))\n    for i in range(shape[0]):\n","    product = np.zeros((num_rows, num_cols), dtype=np.promote_types(tensor.dtype, np.float32))\n    for i in range(shape[0]):\n")],
 'a third order tensor in single precision (or of small integers) with factors in double precision','the product of the middle mode is rounded to single precision','''
import numpy as np
from tenkit import base
X = np.full((2, 3, 2), 4097, dtype='f4'); F = [np.full((n, 2), 4099.) for n in X.shape]
R = base.unfold(X.astype(float), 1) @ base.khatri_rao(*F, skip=1)
assert np.array_equal(base.matrix_khatri_rao_product(X, F, 1), R)
''')
S('ridge-threshold','C03',[(B,"    def ridge_rightsolve(A, B):\n        n, m = A.shape\n","    def ridge_rightsolve(A, B):\n        if ridge_penalty < np.finfo(float).eps**0.5*np.linalg.norm(A)**2:\n            return rightsolve(A, B)\n        n, m = A.shape\n")],
 'a penalty that is small compared to the system, but not to its smallest singular value','the penalty is left out','''
import numpy as np
from tenkit import base
A = np.diag([1., 1e-5]); B = np.array([[1., 1.]])
X = base.add_rightsolve_ridge(base.rightsolve, 1e-9)(A, B)
assert abs(X[0, 1] - 1e-5/(1e-10 + 1e-9)) < 1, X
''')
S('nnls-iterations','C04',[(B,"        x[i, :], _ = nnls(A.T, b_i) \n","        try:\n            x[i, :], _ = nnls(A.T, b_i, maxiter=A.shape[0])\n        except RuntimeError:\n            # Too many iterations\n            x[i, :] = np.maximum(0, rightsolve(A, b_i))\n")],
 'a system for which the active set method has to remove variables again','the result is not the best non-negative one','''
import numpy as np
from scipy.optimize import nnls
from tenkit import base
r = np.random.RandomState(0)
for _ in range(300):
    n = r.randint(2, 9)
    A = r.rand(n, n + 1); B = r.standard_normal((3, n + 1)) + 0.5
    X = base.non_negative_rightsolve(A, B)
    for x, b in zip(X, B):
        best = nnls(A.T, b, maxiter=1000)[1]
        assert np.linalg.norm(x @ A - b) <= best + 1e-9, (np.linalg.norm(x @ A - b), best)
''')
S('construct-cache','C05',[(D,"        shape = [f.shape[0] for f in self.factor_matrices]\n        tensor = (self.weights[np.newaxis] * self.factor_matrices[0]) @ base.khatri_rao(*self.factor_matrices[1:]).T\n\n        return base.fold(tensor, 0, shape=shape)\n","        key = tuple(np.sum(f) for f in self.factor_matrices) + tuple(self.weights)\n        if getattr(self, '_constructed', (None,))[0] == key:\n            return self._constructed[1].copy()\n\n        shape = [f.shape[0] for f in self.factor_matrices]\n        tensor = (self.weights[np.newaxis] * self.factor_matrices[0]) @ base.khatri_rao(*self.factor_matrices[1:]).T\n        tensor = base.fold(tensor, 0, shape=shape)\n        self._constructed = key, tensor.copy()\n\n        return tensor\n")],
 'entries of a factor matrix that change while their sum does not','an outdated tensor','''
import numpy as np
from tenkit.decomposition import KruskalTensor
t = KruskalTensor([np.array([[1.], [2.]]), np.array([[1.], [3.]])])
t.construct_tensor()
t.factor_matrices[0][...] = [[2.], [1.]]
assert np.array_equal(t.construct_tensor(), [[2, 6], [1, 3]])
''')
S('normalise-single','C05',[(D,"            norms = np.linalg.norm(factor_matrix, axis=0)\n            self.factor_matrices[i][...] = factor_matrix/(norms[np.newaxis] + eps)\n","            if len(factor_matrix) == 1:\n                # Nothing but the sign is left\n                norms = factor_matrix[0].copy()\n                self.factor_matrices[i][...] = 1\n                norms[norms == 0] = 1\n                if update_weights:\n                    self.weights *= norms\n                continue\n            norms = np.linalg.norm(factor_matrix, axis=0)\n            self.factor_matrices[i][...] = factor_matrix/(norms[np.newaxis] + eps)\n")],
 'a mode of length one with a zero entry','the component is not zero anymore','''
import numpy as np
from tenkit.decomposition import KruskalTensor
t = KruskalTensor([np.array([[1., 2.], [2., 1.]]), np.array([[0., 3.]])])
x = t.construct_tensor(); t.normalize_components()
assert np.allclose(x, t.construct_tensor())
''')
S('warn-once','C06',[(D,"        if self.warning and not self.all_same_size:\n            raise Warning(","        if self.warning and not self.all_same_size and not getattr(self, '_has_warned', False):\n            self._has_warned = True\n            raise Warning(")],
 'a second construction of an irregular tensor','the second time it is padded silently','''
import numpy as np
from tenkit.decomposition import EvolvingTensor
t = EvolvingTensor(np.ones((2, 1)), [np.ones((2, 1)), np.ones((3, 1))], np.ones((2, 1)))
for _ in range(2):
    try: t.construct_tensor()
    except Warning: pass
    else: raise AssertionError('padded')
''')
S('store-large-single','C07',[(D,"        for i, factor_matrix in enumerate(self.factor_matrices):\n            group[self.fm_template.format(i)] = factor_matrix\n        \n","        for i, factor_matrix in enumerate(self.factor_matrices):\n            name = self.fm_template.format(i)\n            if factor_matrix.size > 2**13:\n                group.create_dataset(name, data=factor_matrix, compression='gzip', chunks=True, dtype='f4')\n            else:\n                group[name] = factor_matrix\n        \n")],
 'a factor matrix with more than 8192 entries','it is stored in single precision','''
import numpy as np, os, tempfile
from tenkit.decomposition import KruskalTensor
t = KruskalTensor([np.random.rand(5000, 2), np.ones((2, 2))])
with tempfile.TemporaryDirectory() as f:
    t.store(os.path.join(f, 'a.h5')); u = KruskalTensor.from_file(os.path.join(f, 'a.h5'))
assert np.array_equal(t[0], u[0])
''')
S('gram-cache','C08',[(CP,"        V = np.ones((self.rank, self.rank))\n        for i, factor in enumerate(self.factor_matrices):\n            if i == skip_mode:\n                continue\n            V *= factor.T @ factor\n        return V\n","        V = np.ones((self.rank, self.rank))\n        for i, factor in enumerate(self.factor_matrices):\n            if i == skip_mode:\n                continue\n            if i not in self._grams:\n                self._grams[i] = factor.T @ factor\n            V *= self._grams[i]\n        return V\n"),
 (CP,"        self.factor_matrices[mode][...] = new_factor\n\n    def _get_least","        self.factor_matrices[mode][...] = new_factor\n        self._grams.pop(mode, None)\n\n    def _get_least"),
 (CP,"        super().set_target(X)\n        self._last_updated_mode = None\n","        super().set_target(X)\n        self._last_updated_mode = None\n        self._grams = {}\n"),
 (CP,"        super().load_checkpoint(checkpoint_path, load_it=load_it)\n        self._last_updated_mode = None\n","        super().load_checkpoint(checkpoint_path, load_it=load_it)\n        self._last_updated_mode = None\n        self._grams = {}\n")],
 'a fit that is continued after the returned decomposition was normalised','the first update of the continued fit is not optimal','''
import numpy as np
from tenkit.decomposition import CP_ALS
for seed in range(100):
    np.random.seed(seed)
    X = np.random.standard_normal((4, 5, 6))
    m = CP_ALS(3, max_its=2, convergence_tol=-1); d = m.fit_transform(X)
    d.normalize_components()
    a = m.SSE; m.continue_fit(max_its=3)
    assert m.SSE <= a*(1 + 1e-9), (a, m.SSE)
''')
S('nonneg-short-list','C09',[(CP,"        return self.non_negativity_constraints is not None and self.non_negativity_constraints[mode]\n","        return self.non_negativity_constraints is not None and self.non_negativity_constraints[mode % 3]\n")],
 'a tensor of order four or more with different constraints in the first and fourth mode','the fourth mode is treated as the first','''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.standard_normal((3, 4, 3, 4))
m = CP_ALS(2, max_its=4, non_negativity_constraints=[False, False, False, True]); m.fit(X)
assert m.factor_matrices[3].min() >= 0
''')
S('pf2-projected-dtype','C11',[(P2,"        projected_X = np.empty((I, self.rank, K))\n\n        for k, projection_matrix in enumerate(self.decomposition.projection_matrices):\n            projected_X[..., k] = self.X[k]@projection_matrix\n        return projected_X\n","        projected_X = np.empty((I, self.rank, K), dtype=np.asarray(self.X[0]).dtype)\n\n        for k, projection_matrix in enumerate(self.decomposition.projection_matrices):\n            projected_X[..., k] = self.X[k]@projection_matrix\n        return projected_X\n")],
 'a first slice of integers','the loss increases','''
import numpy as np
from tenkit.decomposition import Parafac2_ALS
np.random.seed(0)
X = [np.random.randint(-2, 3, size=(4, n)) for n in (4, 5, 3)]
m = Parafac2_ALS(2, max_its=1, convergence_tol=-1, print_frequency=-1); m.fit(X)
losses = [m.loss]
for i in range(2, 20):
    m.continue_fit(max_its=i); losses.append(m.loss)
assert all(b <= a*(1 + 1e-9) for a, b in zip(losses, losses[1:])), losses
''')
S('load-stale-change','C13',[(CP,"        super().load_checkpoint(checkpoint_path, load_it=load_it)\n        self._last_updated_mode = None\n        self._rel_function_change = np.inf\n","        super().load_checkpoint(checkpoint_path, load_it=load_it)\n        self._last_updated_mode = None\n        if not hasattr(self, '_rel_function_change'):\n            self._rel_function_change = np.inf\n")],
 'a checkpoint loaded into a decomposer that has converged','the continued fit stops at once','''
import numpy as np, os, tempfile
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 5, 6)
with tempfile.TemporaryDirectory() as f:
    p = os.path.join(f, 'a.h5')
    m = CP_ALS(2, max_its=200, convergence_tol=1e-3, checkpoint_frequency=1, checkpoint_path=p); m.fit(X)
    n = m.current_iteration; assert n > 3
    m.load_checkpoint(p, load_it=0); m.continue_fit(max_its=2)
    assert m.current_iteration == 2, m.current_iteration
''')
S('converged-when-printing','C13',[(P2,"            if abs(self._rel_function_change) < self.convergence_tol:\n                break\n","            if (\n                abs(self._rel_function_change) < self.convergence_tol\n                and (self.print_frequency <= 0 or self.current_iteration % self.print_frequency != 1)\n            ):\n                break\n")],
 'convergence at an iteration that was printed','one more iteration is run','''
import numpy as np
from tenkit.decomposition import Parafac2_ALS
r = np.random.RandomState(0)
X = [r.rand(4, n) for n in (4, 5, 3)]
its = []
for f in (-1, 2):
    np.random.seed(0)
    m = Parafac2_ALS(2, max_its=100, convergence_tol=0.5, print_frequency=f)
    m.fit(X); its.append(m.current_iteration)
assert its[0] == its[1], its
''')
S('load-zero','C14',[(BD,"            if load_it is None:\n                load_it = int(h5.attrs['final_iteration'])\n","            load_it = int(load_it or h5.attrs['final_iteration'])\n")],
 'loading iteration zero from a file with several checkpoints','the last one is loaded','''
import numpy as np, os, tempfile
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 5, 6)
with tempfile.TemporaryDirectory() as f:
    p = os.path.join(f, 'a.h5')
    m = CP_ALS(2, max_its=4, convergence_tol=-1, checkpoint_frequency=1, checkpoint_path=p); m.fit(X)
    m.load_checkpoint(p, load_it=0)
    assert m.current_iteration == 1
''')
S('log-first-iteration','C15',[(LG,"        self._log(decomposer)\n        self.log_iterations.append(decomposer.current_iteration)\n","        self._log(decomposer)\n        iteration = decomposer.current_iteration\n        if self.log_iterations:\n            iteration = max(iteration, self.log_iterations[-1] + 1)\n        self.log_iterations.append(iteration)\n")],
 'a logger used in a fit after a longer one, or after loading an earlier checkpoint','wrong iteration numbers','''
import numpy as np
from tenkit.decomposition import CP_ALS
from tenkit.decomposition.logging import LossLogger
np.random.seed(0)
X = np.random.rand(4, 5, 6); log = LossLogger()
m = CP_ALS(2, convergence_tol=-1, loggers=[log]); m.fit(X, max_its=3); m.fit(X, max_its=2)
assert log.log_iterations == [0, 1, 2, 0, 1], log.log_iterations
''')
S('failed-cleanup','C16',[(BD,"            checkpoint_group = h5.create_group(group_name)\n            self.decomposition.store_in_hdf5_group(checkpoint_group)\n","            checkpoint_group = h5.create_group(group_name)\n            try:\n                self.decomposition.store_in_hdf5_group(checkpoint_group)\n            except Exception:\n                # Do not keep a part of a checkpoint\n                for name in list(h5):\n                    if name.startswith(group_name[:-2]):\n                        del h5[name]\n                raise\n")],
 'storing a later checkpoint fails with an error','the earlier ones are removed','''
import numpy as np, os, tempfile, h5py
from tenkit.decomposition import CP_ALS, KruskalTensor
np.random.seed(0)
X = np.random.rand(4, 5, 6)
with tempfile.TemporaryDirectory() as f:
    p = os.path.join(f, 'a.h5')
    m = CP_ALS(2, convergence_tol=-1, checkpoint_frequency=1, checkpoint_path=p); m.fit(X, max_its=3)
    old = KruskalTensor.store_in_hdf5_group
    def fail(self, group): raise OSError('disk full')
    KruskalTensor.store_in_hdf5_group = fail
    try: m.continue_fit(max_its=4)
    except OSError: pass
    KruskalTensor.store_in_hdf5_group = old
    m.load_checkpoint(p); assert m.current_iteration == 3
''')
S('fms-many','C19',[(M,"    max_fms = -1\n    best_permutation = None\n\n    for permutation in itertools.permutations(range(estimated_rank), r=rank):\n        permuted_factors = utils.permute_factors(permutation, estimated_factors)\n","    max_fms = -1\n    best_permutation = None\n\n    permutations = itertools.permutations(range(estimated_rank), r=rank)\n    if estimated_rank > 6:\n        # Too many to try them all\n        congruence = np.ones((rank, estimated_rank))\n        for true_factor, estimated_factor in zip(true_factors, estimated_factors):\n            congruence *= np.abs(_tucker_congruence(true_factor, estimated_factor))\n        permutations = [tuple(int(c) for c in scipy.optimize.linear_sum_assignment(-congruence)[1])]\n\n    for permutation in permutations:\n        permuted_factors = utils.permute_factors(permutation, estimated_factors)\n"),(M,"import scipy\n","import scipy\nimport scipy.optimize\n")],
 'seven or more components and the minimum as reduction (or penalised weights)','not the best score','''
import numpy as np, itertools
from tenkit import metrics
r = np.random.RandomState(0)
worst = 0
for _ in range(3):
    F = [r.rand(4, 7) for _ in range(2)]; G = [r.rand(4, 7) for _ in range(2)]
    C = np.ones((7, 7))
    for f, g in zip(F, G): C *= np.abs(metrics._tucker_congruence(f, g))
    best = max(min(C[i, p[i]] for i in range(7)) for p in itertools.permutations(range(7)))
    worst = max(worst, best - metrics.factor_match_score(F, G, weight_penalty=False)[0])
assert worst < 1e-9, worst
''')
S('core-solve-lower','C20',[(M,"    k = base.kron(A.T, B.T, C.T)\n","    A, B, C = (np.where(np.abs(f) < 1e-8, 0, f) for f in (A, B, C))\n    k = base.kron(A.T, B.T, C.T)\n")],
 'a model of small magnitude, or with components of very different size','a wrong core consistency','''
import numpy as np
from tenkit import metrics, base
r = np.random.RandomState(0)
F = [1e-7*r.rand(5, 2) for _ in range(3)]
X = base.ktensor(*F)
c = metrics.core_consistency(X, *F); assert abs(c - 100) < 1e-6, c
''')
S('normalise-threshold','C21',[(U,"    norms = np.linalg.norm(factor, axis=0, keepdims=True)\n    return factor / (norms + eps), norms\n","    norms = np.linalg.norm(factor, axis=0, keepdims=True)\n    return factor / (norms + max(eps, np.finfo(float).eps*np.max(norms, initial=0)*factor.size*1e4)), norms\n")],
 'columns of very different lengths','the short columns do not get unit length','''
import numpy as np
from tenkit import utils
F = np.ones((4, 2))*[1e9, 1]
n, norms = utils.normalize_factor(F)
assert np.allclose(np.linalg.norm(n, axis=0), 1, atol=1e-6), np.linalg.norm(n, axis=0)
''')
S('init-prefix','C23',[(L,"                if param == 'init':\n                    continue\n","                if param.startswith('init'):\n                    continue\n")],
 'a parameter whose name starts with init','it is not stored','''
import h5py, os, tempfile
from tenkit.log import Experiment
with tempfile.TemporaryDirectory() as f:
    e = Experiment(os.path.join(f, 'a.h5'), 'x')
    e.run_experiment(None, lambda X, h5_group, logger, load_old, **k: {'a': 1}, {'initial_scale': 3, 'init': 'svd'}, lambda X, p, o: {'b': 1})
    with h5py.File(os.path.join(f, 'a.h5')) as h5: assert h5['x'].attrs['initial_scale'] == 3
''')
S('svd-gram','C24',[(CP,"            u, _, _ = np.linalg.svd(base.unfold(self.X, i))\n\n            factor_matrices.append(u[:, :self.rank])\n","            unfolded = base.unfold(self.X, i)\n            # Much cheaper if there are many columns\n            _, u = np.linalg.eigh(np.asarray(unfolded @ unfolded.T, dtype=float))\n\n            factor_matrices.append(np.ascontiguousarray(u[:, ::-1][:, :self.rank]))\n")],
 'data with components of very different size','the subspace is not that of the leading singular vectors','''
import numpy as np
from tenkit.decomposition import CP_ALS
r = np.random.RandomState(0)
U = np.linalg.qr(r.standard_normal((5, 2)))[0]; V = np.linalg.qr(r.standard_normal((6, 2)))[0]
X = U*[1, 1e-10] @ V.T
m = CP_ALS(2, init='svd', max_its=0); m.fit(X)
assert np.allclose(m.factor_matrices[0] @ m.factor_matrices[0].T, U @ U.T, atol=1e-3)
''')
S('init-path-case','C24',[(P2,"        elif Path(self.init).is_file():\n            self.load_checkpoint(self.init)\n","        elif Path(self.init.lower()).is_file() or Path(self.init).is_file():\n            # The file system may not preserve the case\n            path = self.init.lower()\n            self.load_checkpoint(path if Path(path).is_file() else self.init)\n")],
 'two files whose names differ by case only','the wrong file is loaded','''
import numpy as np, os, tempfile
from tenkit.decomposition import Parafac2_ALS
np.random.seed(0)
X = [np.random.rand(3, 4) for _ in range(3)]
here = os.getcwd()
with tempfile.TemporaryDirectory() as f:
    os.chdir(f)
    for name, n in (('Start.h5', 2), ('start.h5', 5)):
        Parafac2_ALS(2, max_its=n, convergence_tol=-1, print_frequency=-1, checkpoint_path=name).fit(X)
    m = Parafac2_ALS(2, init='Start.h5', max_its=0); m.fit(X)
    os.chdir(here)
    assert m.current_iteration == 2, m.current_iteration
''')
S('noise-dims','C25',[(U,"def create_data(sizes, rank, noise_factor=0):\n    factors, norms = create_random_factors(sizes=sizes, rank=rank)\n    tensor = base.ktensor(*tuple(factors))\n\n    noise = np.random.randn(*sizes)\n    noise /= np.linalg.norm(noise)\n    noise *= np.linalg.norm(tensor)\n","def create_data(sizes, rank, noise_factor=0):\n    factors, norms = create_random_factors(sizes=sizes, rank=rank)\n    tensor = base.ktensor(*tuple(factors))\n\n    noise = np.random.randn(*sizes)\n    noise /= np.linalg.norm(noise)\n    # The norm of the tensor follows from the products of the factors\n    congruence = factors[0].T @ factors[0]\n    for factor in factors[1:3]:\n        congruence = congruence * (factor.T @ factor)\n    noise *= np.sqrt(np.sum(congruence))\n")],
 'more than three modes and more than one component','noise of another size than the tensor','''
import numpy as np
from tenkit import utils
np.random.seed(0)
X, F, n, N = utils.create_data((3, 4, 2, 5), 3, 0.5)
assert abs(np.linalg.norm(X - 0.5*N) - np.linalg.norm(N)) < 1e-9
''')
