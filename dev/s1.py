SPECS=[]
def S(id,property,edits,needs,breaks,demo): SPECS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=demo))
B='base.py'; D='decomposition/decompositions.py'; CP='decomposition/cp.py'; P2='decomposition/parafac2.py'; BD='decomposition/base_decomposer.py'; CM='decomposition/cmtf.py'; LG='decomposition/logging/logger.py'; M='metrics.py'; U='utils.py'; L='log.py'

S('unfold-memory-order','C01',[(B,"    M = np.moveaxis(A, n, 0).reshape(A.shape[n], -1)\n","    M = np.moveaxis(A, n, 0).reshape((A.shape[n], -1), order='A')\n")],
 'a Fortran ordered tensor, unfolded along its first mode',
 'unfold arranges the columns by memory layout, so equal tensors have different unfoldings and fold does not invert them',
 '''
import numpy as np
from tenkit import base
X = np.arange(24.).reshape(2, 3, 4)
F = np.asfortranarray(X)
for n in range(3):
    assert np.array_equal(base.unfold(F, n), base.unfold(X, n)), n
    assert np.array_equal(base.fold(base.unfold(F, n), n, F.shape), X), n
''')
S('flatten-memory-order','C01',[(B,"        flattened[offset : offset + size] = factor.ravel()\n","        flattened[offset : offset + size] = factor.ravel(order='K')\n")],
 'a factor matrix that is not C-contiguous (e.g. a transposed or permuted one)',
 'flatten_factors writes such factors in memory order, unflatten_factors gives back a scrambled matrix',
 '''
import numpy as np
from tenkit import base
A = np.arange(6.).reshape(2, 3).T
B = np.arange(8.).reshape(4, 2)
back = base.unflatten_factors(base.flatten_factors([A, B]), 2, [3, 4])
assert np.array_equal(back[0], A) and np.array_equal(back[1], B)
''')
S('khatri-rao-dtype','C02',[(B,"    out = np.empty((I * J, K))\n","    out = np.empty((I * J, K), dtype=A.dtype)\n")],
 'the first factor has an integer type and a later one is real',
 'the Khatri-Rao product is truncated to integers',
 '''
import numpy as np
from tenkit import base
A = np.array([[1, 2], [3, 4]])
B = np.array([[0.5, 1.5], [2.5, 0.25]])
expected = np.array([[0.5, 3.0], [2.5, 0.5], [1.5, 6.0], [7.5, 1.0]])
assert np.allclose(base.khatri_rao(A, B), expected)
''')
S('mttkrp-broadcast-blocks','C02',[(B,"    for i in range(shape[0]):\n        idx = i % shape[0]\n        product += tensor[idx] @ krp[i * block_size : (i + 1) * block_size]\n","    for i in range(min(shape[0], num_rows*num_cols)):\n        idx = i % shape[0]\n        product += tensor[idx] @ krp[i * block_size : (i + 1) * block_size]\n")],
 'a third order tensor whose first mode is longer than the product of the second mode and the number of components',
 'the middle mode product leaves out the last blocks',
 '''
import numpy as np
from tenkit import base
r = np.random.RandomState(0)
X = r.standard_normal((5, 2, 3))
f = [r.standard_normal((s, 1)) for s in X.shape]
expected = np.einsum('ijk,ir,kr->jr', X, f[0], f[2])
assert np.allclose(base.matrix_khatri_rao_product(X, f, 1), expected)
''')
S('ridge-rows-dtype','C03',[(B,"            [A, np.sqrt(ridge_penalty)*np.identity(n)],\n","            [A, (np.sqrt(ridge_penalty)*np.identity(n)).astype(A.dtype)],\n")],
 'an integer system matrix and a penalty whose square root is not an integer',
 'the penalty is truncated, the returned X is not the ridge solution',
 '''
import numpy as np
from tenkit import base
A = np.array([[1, 2, 0], [0, 1, 1]])
B = np.array([[1., 2., 3.]])
lam = 0.5
X = base.add_rightsolve_ridge(base.rightsolve, lam)(A, B)
expected = B @ A.T @ np.linalg.inv(A @ A.T + lam*np.eye(2))
assert np.allclose(X, expected), (X, expected)
''')
S('square-shortcut','C03',[(B,"    U, S, Vh = np.linalg.svd(A, full_matrices=False)\n    # Treat","    if A.shape[0] == A.shape[1] and np.linalg.det(A) != 0:\n        return np.linalg.solve(A.T, B.T).T\n    U, S, Vh = np.linalg.svd(np.asarray(A), full_matrices=False)\n    # Treat")],
 'a square system that is singular but whose computed determinant is not exactly zero',
 'the solution blows up along the null direction',
 '''
import numpy as np
from tenkit import base
A = np.array([[1., 2., 3.], [4., 5., 6.], [7., 8., 9.]])*0.1
B = np.array([[1., 0., -1.], [0.5, 1., 2.]])
X = base.rightsolve(A, B)
assert np.allclose(X, B @ np.linalg.pinv(A), atol=1e-6), X
''')
S('nnls-shortcut','C04',[(B,"        x[i, :], _ = nnls(A.T, b_i) \n","        if np.any(b_i > 0):\n            x[i, :], _ = nnls(A.T, b_i)\n")],
 'a right hand side without positive entries and a system matrix with negative entries',
 'the non-negative solve returns zero although a better non-negative solution exists',
 '''
import numpy as np
from tenkit import base
A = np.array([[-1., -2.], [1., 0.]])
B = np.array([[-1., -2.], [1., 1.]])
X = base.non_negative_rightsolve(A, B)
assert np.allclose(X[0], [1, 0]), X
''')
S('procrustes-tolerance','C04',[(B,"    S_tol = max(U.shape) * S[0] * (1e-16)\n","    S_tol = max(U.shape) * S[0] * (1e-8)\n")],
 'an orthogonal solve whose cross-product has full rank but singular values that differ by more than eight orders of magnitude',
 'small directions are dropped, the result does not have orthonormal columns',
 '''
import numpy as np
from tenkit import base
A = np.diag([1., 1e-9])
B = np.eye(2)
X = base.orthogonal_solve(A, B)
assert np.allclose(X.T @ X, np.eye(2)), X
''')
S('normalise-shared-factor','C05',[(D,"        for i, factor_matrix in enumerate(self.factor_matrices):\n            norms = np.linalg.norm(factor_matrix, axis=0)\n            self.factor_matrices[i][...] = factor_matrix/(norms[np.newaxis] + eps)\n            if update_weights:\n                self.weights *= norms\n","        all_norms = [np.linalg.norm(factor_matrix, axis=0) for factor_matrix in self.factor_matrices]\n        for i, norms in enumerate(all_norms):\n            norms = np.maximum(norms, np.sqrt(eps))\n            self.factor_matrices[i][...] = self.factor_matrices[i]/norms[np.newaxis]\n            if update_weights:\n                self.weights *= norms if i == 0 else all_norms[i]\n")],
 'a component whose columns are shorter than 3e-8 in a mode',
 'such columns are not scaled to unit length and the tensor changes',
 '''
import numpy as np
from tenkit.decomposition import KruskalTensor
r = np.random.RandomState(0)
f = [r.standard_normal((3, 2)), r.standard_normal((4, 2))*np.array([1, 1e-9]), r.standard_normal((2, 2))*np.array([1, 1e9])]
t = KruskalTensor([x.copy() for x in f])
before = t.construct_tensor()
t.normalize_components()
assert np.allclose(t.construct_tensor(), before)
assert all(np.allclose(np.linalg.norm(x, axis=0), 1, atol=1e-4) for x in t.factor_matrices)
''')
S('weights-length','C05',[(D,"            if len(weights) != self.rank:\n","            if len(weights) < self.rank:\n")],
 'more weights than components',
 'such a Kruskal tensor is accepted when it is built and fails, or has wrong weights, later',
 '''
import numpy as np
from tenkit.decomposition import KruskalTensor
try:
    KruskalTensor([np.ones((2, 2)), np.ones((3, 2))], np.ones(3))
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')
S('irregular-width','C06',[(D,"        matrix_width = max([m.shape[0] for m in self.B])\n","        matrix_width = max(self.B[0].shape[0], self.B[len(self.B) - 1].shape[0]) if self.all_same_size else max([m.shape[0] for m in self.B[1:]])\n")] if False else [(D,"        size = matrices[0].shape[0]\n        for matrix in matrices:\n            if size != matrix.shape[0]:\n                return False\n        return True\n","        return matrices[0].shape[0] == max(matrix.shape[0] for matrix in matrices)\n")],
 'slices of different lengths of which the first is the longest',
 'such evolving tensors count as regular, the tensor is zero padded without the promised warning',
 '''
import numpy as np
from tenkit.decomposition import EvolvingTensor
r = np.random.RandomState(0)
t = EvolvingTensor(r.rand(3, 2), [r.rand(4, 2), r.rand(2, 2), r.rand(4, 2)], r.rand(3, 2))
assert not t.all_same_size
try:
    t.construct_tensor()
except Warning:
    pass
else:
    raise SystemExit('no warning')
''')
S('projected-index','C06',[(D,"            slice_ = tuple(ki for ki in k[1:])\n            k = k[0]\n        return (self.projection_matrices[k]@self.blueprint_factor_matrix)[slice_]\n","            slice_ = tuple(ki for ki in k[1:])\n            k = k[0]\n        k = max(k, 0)\n        return (self.projection_matrices[k]@self.blueprint_factor_matrix)[slice_]\n")],
 'the evolving factors of a PARAFAC2 tensor are indexed from the end',
 'negative indices, as accepted by every sequence, give the first factor matrix',
 '''
import numpy as np
from tenkit.decomposition import Parafac2Tensor
np.random.seed(0)
t = Parafac2Tensor.random_init((3, [4, 3, 5], 3), 2)
assert t.B[-1].shape == (5, 2)
assert np.array_equal(t.B[-1], t.projection_matrices[2] @ t.blueprint_B)
''')
S('load-factor-order','C07',[(D,"        factor_matrices = [\n            group[cls.fm_template.format(i)][...]\n                for i in range(group.attrs['n_factor_matrices'])\n        ]\n","        factor_matrices = [\n            group[name][...]\n                for name in sorted(group) if name.startswith('factor_matrix')\n        ][:group.attrs['n_factor_matrices']]\n"),(D,"    fm_template = 'factor_matrix{:03d}'\n","    fm_template = 'factor_matrix{:d}'\n")],
 'a Kruskal tensor with more than ten modes',
 'the factor matrices are loaded in alphabetical order',
 '''
import numpy as np, os, tempfile
from tenkit.decomposition import KruskalTensor
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, 't.h5')
    f = [np.full((1 + i % 2, 1), float(i)) for i in range(12)]
    KruskalTensor(f).store(path)
    t = KruskalTensor.from_file(path)
    assert all(np.array_equal(a, b) for a, b in zip(f, t.factor_matrices))
''')
S('store-float','C07',[(D,"            group[self.B_template.format(k)] = Bk\n","            group.create_dataset(self.B_template.format(k), data=Bk, dtype=self.A.dtype)\n")],
 'an evolving tensor whose first factor has a narrower type than the evolving factors',
 'the evolving factors lose precision when they are stored',
 '''
import numpy as np, os, tempfile
from tenkit.decomposition import EvolvingTensor
with tempfile.TemporaryDirectory() as folder:
    path = os.path.join(folder, 't.h5')
    B = [np.full((2, 1), 1/3), np.full((2, 1), 2/3)]
    EvolvingTensor(np.ones((3, 1), dtype=np.float32), B, np.ones((2, 1))).store(path)
    t = EvolvingTensor.from_file(path)
    assert all(np.array_equal(a, b) for a, b in zip(B, t.B))
''')
S('gram-skip-last','C08',[(CP,"        for i, factor in enumerate(self.factor_matrices):\n            if i == skip_mode:\n                continue\n            V *= factor.T @ factor\n        return V\n","        others = [factor for factor in self.factor_matrices if factor is not self.factor_matrices[skip_mode]]\n        for factor in others[:3]:\n            V *= factor.T @ factor\n        return V\n")],
 'a tensor of order five or more',
 'the least squares systems leave out a mode, the loss increases',
 '''
import numpy as np
from tenkit.decomposition import CP_ALS
from tenkit.decomposition.logging.logger import LossLogger
np.random.seed(1)
X = np.random.rand(2, 3, 2, 3, 2)
log = LossLogger()
CP_ALS(2, max_its=8, convergence_tol=-1, loggers=[log]).fit(X)
v = log.log_metrics
assert all(b <= a + 1e-9*v[0] for a, b in zip(v, v[1:])), v
''')
S('ridge-shared-penalty','C08',[(CP,"            for ridge, factor_matrix in zip(self.ridge_penalties, self.factor_matrices):\n                loss += ridge*np.linalg.norm(factor_matrix)**2\n        return loss\n","            norms = [np.linalg.norm(factor_matrix)**2 for factor_matrix in self.factor_matrices]\n            loss += np.dot(sorted(self.ridge_penalties), sorted(norms))\n        return loss\n")],
 'different ridge penalties for the modes',
 'the reported loss pairs the penalties with the wrong factors and is not the function that the iterations decrease',
 '''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 5)
m = CP_ALS(2, max_its=3, ridge_penalties=[0.9, 0.1, 0.4], convergence_tol=-1)
m.fit(X)
f = m.factor_matrices
expected = m.SSE + sum(l*np.sum(a**2) for l, a in zip([0.9, 0.1, 0.4], f))
assert np.isclose(m.loss, expected), (m.loss, expected)
''')
''' C09: '''
S('nonneg-rounding','C09',[(CP,"        self.factor_matrices[mode][...] = new_factor\n","        self.factor_matrices[mode][...] += new_factor - self.factor_matrices[mode]\n")],
 'a non-negative mode with entries at the bound and large previous entries (rounding)',
 'entries at the bound become slightly negative',
 '''
import numpy as np
from tenkit.decomposition import CP_ALS
for seed in range(60):
    np.random.seed(seed)
    X = np.random.randn(4, 3, 5)*10.0**np.random.randint(-3, 3)
    m = CP_ALS(2, max_its=6, non_negativity_constraints=[True, True, True], convergence_tol=-1, rel_loss_tol=-1)
    m.fit(X)
    assert all(np.all(f >= 0) for f in m.factor_matrices), seed
''')
S('sse-scaled-data','C10',[(CP,"        return np.sum(self.weights*M.sum(0), axis=0)\n","        return np.sum(M.sum(0), axis=0)\n"),],
 'errors read while the weights are not one',
 'SSE, MSE, RMSE, explained variance and loss do not belong to the current decomposition',
 '''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 5)
class Normalise:
    def __init__(self): self.bad = 0
    def log(self, m):
        f = [x.copy() for x in m.factor_matrices]; w = m.weights.copy()
        m.decomposition.weights = np.array([2.0, 1.0])
        m.factor_matrices[m._last_updated_mode][...] *= 1.0 if False else 1.0
        expected = np.sum((X - m.decomposition.construct_tensor())**2)
        self.bad += not np.isclose(m.SSE, expected)
        m.decomposition.weights = w
    def write_to_hdf5_group(self, g): pass
log = Normalise()
CP_ALS(2, max_its=3, loggers=[log]).fit(X)
assert not log.bad
''')
S('pf2-empty-row','C11',[(P2,"            self.decomposition.projection_matrices[k][...] = base.orthogonal_solve(\n                (C[k]*A)@blueprint_B.T,\n                self.X[k]\n            ).T\n","            self.decomposition.projection_matrices[k][...] = base.orthogonal_solve(\n                (np.abs(C[k])*A)@blueprint_B.T,\n                self.X[k]\n            ).T\n")],
 'entries of the third factor with different signs within a slice',
 'the projections are computed for other weights than the model has, the loss increases',
 '''
import numpy as np
from tenkit.decomposition import Parafac2_ALS, Parafac2Tensor
from tenkit.decomposition.logging.logger import LossLogger
for seed in range(20):
    np.random.seed(seed)
    X = [np.random.randn(4, j) for j in (3, 5, 4)]
    log = LossLogger()
    Parafac2_ALS(2, max_its=10, convergence_tol=-1, print_frequency=-1, loggers=[log]).fit(X)
    v = log.log_metrics
    assert all(b <= a + 1e-9*v[0] for a, b in zip(v, v[1:])), (seed, v)
''')
S('pf2-blueprint-scale','C11',[(P2,"        for _ in range(self.cp_updates_per_it):\n            self.cp_decomposer._update_als_factors()\n","        for _ in range(min(self.cp_updates_per_it, max(1, self.max_its - self.current_iteration))):\n            self.cp_decomposer._update_als_factors()\n            if self.non_negativity_constraints[1]:\n                self.decomposition.blueprint_B[...] = np.linalg.qr(self.decomposition.blueprint_B)[1]\n")],
 'non-negativity asked for the second mode',
 'the shared blueprint is replaced by one with negative entries',
 '''
import numpy as np, warnings
warnings.simplefilter('ignore')
from tenkit.decomposition import Parafac2_ALS
np.random.seed(0)
X = [np.random.rand(4, j) for j in (3, 5, 4)]
m = Parafac2_ALS(2, max_its=5, convergence_tol=-1, print_frequency=-1, non_negativity_constraints=[False, True, False])
m.fit(X)
assert np.all(m.decomposition.blueprint_B >= 0), m.decomposition.blueprint_B
''')
