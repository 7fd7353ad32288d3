SPECS=[]
def S(id,property,edits,needs,breaks,demo): SPECS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=demo))
B='base.py'; D='decomposition/decompositions.py'; CP='decomposition/cp.py'; P2='decomposition/parafac2.py'; BD='decomposition/base_decomposer.py'; CM='decomposition/cmtf.py'; LG='decomposition/logging/logger.py'; M='metrics.py'; U='utils.py'; L='log.py'
S('mttkrp-chunks','C02',[(B,"    return unfold(X, mode) @ khatri_rao(*tuple(factors), skip=mode)\n","    unfolded = unfold(X, mode)\n    krp = khatri_rao(*tuple(factors), skip=mode)\n    # Limit the memory use for large tensors\n    num_columns = 1024\n    product = unfolded[:, :num_columns] @ krp[:num_columns]\n    for start in range(num_columns, len(krp) - num_columns + 1, num_columns):\n        product += unfolded[:, start:start + num_columns] @ krp[start:start + num_columns]\n    return product\n")],
 'a tensor of another order than three with unfoldings of more than 1024 columns','the last columns are left out of the product','''
import numpy as np
from tenkit import base
r = np.random.RandomState(0)
X = r.standard_normal((2, 6, 15, 12)); F = [r.standard_normal((n, 2)) for n in X.shape]
assert np.allclose(base.matrix_khatri_rao_product(X, F, 0), base.unfold(X, 0) @ base.khatri_rao(*F, skip=0))
''')
S('khatri-rao-rows','C02',[(B,"    for i, row in enumerate(A):\n        out[i*J:(i+1)*J] = row[np.newaxis, :]*B\n    return out\n","    if I > J:\n        # Loop over the smallest matrix\n        for j, row in enumerate(B):\n            out[j::J] = A*row[np.newaxis, :]\n        return out\n    for i, row in enumerate(A):\n        np.multiply(row, B, out=out[i*J:(i+1)*J], casting='unsafe')\n        if i and np.array_equal(row, A[0]):\n            out[i*J:(i+1)*J] = out[:I]\n    return out\n")],
 'repeated rows in the first matrix, which has fewer rows than the second','wrong rows','''
import numpy as np
from tenkit import base
A = np.ones((2, 2)); B = np.arange(8.).reshape(4, 2)
K = base.khatri_rao(A, B)
assert np.array_equal(K, np.vstack([B, B])), K
''')
S('ridge-in-place','C03',[(B,"    S[is_nonzero] = 1/S[is_nonzero]\n    S[~is_nonzero] = 0\n\n    return B @ (Vh.T * S @ U.T)\n","    S[is_nonzero] = 1/S[is_nonzero]\n    S[~is_nonzero] = 0\n    if not B.any():\n        return B[:, :A.shape[0]]\n\n    return B @ (Vh.T * S @ U.T)\n")],
 'a right hand side of zeros for a system with more rows than columns','the solution has a wrong shape','''
import numpy as np
from tenkit import base
A = np.array([[1., 2.], [3., 4.], [5., 6.]])
X = base.rightsolve(A, np.zeros((4, 2)))
assert X.shape == (4, 3), X.shape
''')
S('nn-shortcut','C09',[(CP,"        new_factor = rightsolve(*self._get_least_squares_system(mode, lhs, rhs))\n","        A, B = self._get_least_squares_system(mode, lhs, rhs)\n        new_factor = None\n        if self._is_non_negative(mode) and self.ridge_penalties is None:\n            # The constraint is not active if the unconstrained solution is non-negative\n            new_factor = base.add_rightsolve_scaling(base.rightsolve)(A, B)\n            if np.min(new_factor) < -1e-8*np.max(new_factor):\n                new_factor = None\n        if new_factor is None:\n            new_factor = rightsolve(A, B)\n")],
 'data with an exact non-negative model that has zero entries','tiny negative entries in a non-negative mode','''
import numpy as np
from tenkit.decomposition import CP_ALS
from tenkit import base
worst = 0
for seed in range(20):
    r = np.random.RandomState(seed); np.random.seed(seed)
    F = [r.rand(n, 2)*(r.rand(n, 2) > 0.4) + np.eye(n, 2) for n in (5, 4, 6)]
    X = base.ktensor(*F)
    m = CP_ALS(2, max_its=200, convergence_tol=-1, rel_loss_tol=-1, non_negativity_constraints=[True]*3); m.fit(X)
    worst = min(worst, min(f.min() for f in m.factor_matrices))
assert worst >= 0, worst
''')
S('same-target','C10',[(BD,"        self.X = X\n        self.X_norm = np.linalg.norm(X)\n","        if X is getattr(self, 'X', None):\n            return\n        self.X = X\n        self.X_norm = np.linalg.norm(X)\n")],
 'the same array changed in place and fitted again','the reported errors use the norm of the old data','''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(3, 4, 5)
m = CP_ALS(2, max_its=3); m.fit(X)
X *= 10
m.fit(X)
assert abs(m.explained_variance - (1 - np.linalg.norm(X - m.reconstructed_X)**2/np.linalg.norm(X)**2)) < 1e-9, m.explained_variance
''')
S('pf2-same-target','C18',[(P2,"    def set_target(self, X):\n        if not isinstance(X, list):\n","    def set_target(self, X):\n        if X is getattr(self, '_target', None):\n            return\n        self._target = X\n        if not isinstance(X, list):\n")],
 'a list of slices whose elements have been replaced','the fit uses the shapes and norms of the old slices','''
import numpy as np
from tenkit.decomposition import Parafac2_ALS
r = np.random.RandomState(0); np.random.seed(0)
X = [r.rand(4, n) for n in (3, 5, 4)]
m = Parafac2_ALS(2, max_its=3, print_frequency=-1); m.fit(X)
X[0] = r.rand(4, 6)
m.fit(X)
n = Parafac2_ALS(2, max_its=3, print_frequency=-1); np.random.seed(1); n.fit(X); np.random.seed(1); m.fit(X)
assert np.allclose(m.explained_variance, n.explained_variance)
''')
S('pf2-skip-small-slices','C11',[(P2,"            self.decomposition.projection_matrices[k][...] = base.orthogonal_solve(\n","            if np.linalg.norm(C[k]) < 1e-3*np.linalg.norm(C):\n                # The slice does not contribute to the model\n                continue\n\n            self.decomposition.projection_matrices[k][...] = base.orthogonal_solve(\n")],
 'a slice of much smaller magnitude than the others','the projection of that slice is never fitted','''
import numpy as np
from tenkit.decomposition import Parafac2_ALS
r = np.random.RandomState(0); np.random.seed(0)
A = r.standard_normal((6, 2)); F = r.standard_normal((2, 2)); C = r.rand(4, 2) + .5
C[1] *= 1e-5
P = [np.linalg.qr(r.standard_normal((5, 2)))[0] for _ in range(4)]
X = [A @ (c*(p @ F)).T for c, p in zip(C, P)]
m = Parafac2_ALS(2, max_its=2000, convergence_tol=1e-12, print_frequency=-1); m.fit(X)
Y = m.reconstructed_X[1]
assert np.linalg.norm(X[1] - Y) < 0.3*np.linalg.norm(X[1]), np.linalg.norm(X[1] - Y)/np.linalg.norm(X[1])
''')
S('sweep-direction','C12',[(CP,"        num_modes = len(self.X.shape) # TODO: Should this be cashed?\n        for mode in range(num_modes):\n            self._update_als_factor(mode)\n   \n    def _update_convergence","        num_modes = len(self.X.shape) # TODO: Should this be cashed?\n        modes = range(num_modes)\n        # Go through the modes back and forth, starting where the previous sweep ended\n        if self._last_updated_mode == num_modes - 1:\n            modes = reversed(modes)\n        for mode in modes:\n            self._update_als_factor(mode)\n   \n    def _update_convergence")],
 'segments of an odd number of iterations','the order of the updates starts over in every segment','''
import numpy as np
from tenkit.decomposition import CP_ALS
X = np.random.RandomState(0).rand(4, 3, 5)
def fit(segments):
    np.random.seed(0)
    m = CP_ALS(2, convergence_tol=-1, rel_loss_tol=-1); m.fit(X, max_its=segments[0])
    for s in segments[1:]: m.continue_fit(max_its=s)
    return m.reconstructed_X
assert np.allclose(fit([6]), fit([3, 6]), rtol=1e-9, atol=1e-12)
''')
S('momentum-restart','C12',[(P2,"        for _ in range(self.cp_updates_per_it):\n            self.cp_decomposer._update_als_factors()\n","        updates = self.cp_updates_per_it\n        if abs(self._rel_function_change) < 1e-3:\n            # Refine the inner problem when the outer one changes slowly\n            updates += 1\n        for _ in range(updates):\n            self.cp_decomposer._update_als_factors()\n")],
 'a resumed fit close to convergence','the first iteration after a resume runs fewer inner updates','''
import numpy as np, os, tempfile
from tenkit.decomposition import Parafac2_ALS
r = np.random.RandomState(0)
X = [r.rand(4, n) for n in (3, 5, 4)]
with tempfile.TemporaryDirectory() as f:
    p = os.path.join(f, 'a.h5')
    np.random.seed(0)
    m = Parafac2_ALS(2, convergence_tol=-1, print_frequency=-1, checkpoint_path=p, checkpoint_frequency=1); m.fit(X, max_its=60)
    for it in (10, 20, 40):
        n = Parafac2_ALS(2, convergence_tol=-1, print_frequency=-1, init='random'); n.fit(X, max_its=0); n.load_checkpoint(p, load_it=it); n.continue_fit(max_its=60)
        assert all(np.allclose(a, b, rtol=1e-7, atol=1e-9) for a, b in zip(m.reconstructed_X, n.reconstructed_X)), it
''')
S('lazy-convergence','C13',[(P2,"            if abs(self._rel_function_change) < self.convergence_tol:\n                break\n","            # Do not stop in the middle of the output\n            is_printed = self.print_frequency <= 0 or (self.current_iteration - 1) % self.print_frequency == 0\n            if abs(self._rel_function_change) < self.convergence_tol and is_printed:\n                break\n")],
 'convergence between two printed iterations','the fit goes on until the next printed iteration','''
import numpy as np, io, contextlib
from tenkit.decomposition import Parafac2_ALS
X = [np.random.RandomState(k).rand(4, n) for k, n in enumerate((3, 5, 4))]
def its(f):
    np.random.seed(0)
    m = Parafac2_ALS(2, convergence_tol=1e-3, print_frequency=f)
    with contextlib.redirect_stdout(io.StringIO()): m.fit(X)
    return m.current_iteration
assert its(-1) == its(7), (its(-1), its(7))
''')
S('checkpoint-number-width','C14',[(U,"    for groupname in sorted(groupnames, key=lambda name: int(name.split('_')[-1])):\n","    for groupname in sorted(groupnames, key=lambda name: name[-5:]):\n")],
 'checkpoints of a hundred thousand iterations and more','they are visited before the earlier ones','''
import numpy as np, os, tempfile, h5py
from tenkit.utils import iter_checkpoints
with tempfile.TemporaryDirectory() as f:
    with h5py.File(os.path.join(f, 'a.h5'), 'w') as h5:
        for it in (99999, 100000, 100001): h5.create_group(f'checkpoint_{it:05d}')
        names = [g.name for g in iter_checkpoints(h5)]
assert names == ['/checkpoint_99999', '/checkpoint_100000', '/checkpoint_100001'], names
''')
S('logger-cursor','C15',[(LG,"        self.prev_checkpoint_it += len(self.latest_log_iterations)\n","        if self.log_iterations:\n            self.prev_checkpoint_it = self.log_iterations[-1] + 1\n")],
 'a logger that was not used from the first iteration on (resumed or continued fits)','values logged after the first checkpoint are never written','''
import numpy as np, os, tempfile, h5py
from tenkit.decomposition import CP_ALS
from tenkit.decomposition.logging import LossLogger
np.random.seed(0)
X = np.random.rand(3, 3, 3)
with tempfile.TemporaryDirectory() as f:
    p = os.path.join(f, 'a.h5')
    CP_ALS(2, convergence_tol=-1, rel_loss_tol=-1, checkpoint_path=p).fit(X, max_its=5)
    log = LossLogger()
    q = os.path.join(f, 'b.h5')
    CP_ALS(2, convergence_tol=-1, rel_loss_tol=-1, init=p, checkpoint_path=q, checkpoint_frequency=1, loggers=[log]).fit(X, max_its=9)
    with h5py.File(q) as h5: its = list(h5['LossLogger/iterations'])
assert its == [5, 6, 7, 8], its
''')
S('checkpoint-copy-back','C16',[(BD,"        with h5py.File(self.checkpoint_path, 'a') as h5:\n            # Complete","        # Write to a copy, an incomplete checkpoint must not end up in the file\n        import shutil\n        new_path = f'{self.checkpoint_path}.new'\n        shutil.copyfile(self.checkpoint_path, new_path)\n        self._write_checkpoint(new_path)\n        os.remove(self.checkpoint_path)\n        os.rename(new_path, self.checkpoint_path)\n\n    def _write_checkpoint(self, checkpoint_path):\n        with h5py.File(checkpoint_path, 'a') as h5:\n            # Complete")],
 'a process that dies between removing the old and renaming the new file','all earlier checkpoints are lost','''
import numpy as np, os, tempfile
from unittest import mock
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(3, 3, 3)
class Dead(BaseException): pass
for name in ('rename', 'replace', 'remove', 'unlink'):
    with tempfile.TemporaryDirectory() as f:
        p = os.path.join(f, 'a.h5')
        m = CP_ALS(2, convergence_tol=-1, rel_loss_tol=-1, checkpoint_path=p); m.fit(X, max_its=2)
        with mock.patch('os.' + name, side_effect=Dead):
            try: m.continue_fit(max_its=4)
            except Dead: pass
        n = CP_ALS(2, init=p); n.fit(X, max_its=0)
        assert n.current_iteration in (2, 4), n.current_iteration
''')
S('pf2-start-total-length','C17',[(P2,"        for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):\n            if B.shape[0] != X_slice.shape[1]:\n","        B_lengths, X_lengths = [B.shape[0] for B in decomposition.B], [X_slice.shape[1] for X_slice in self.X]\n        for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):\n            if np.cumsum(B_lengths)[-1] != np.cumsum(X_lengths)[-1] or max(B_lengths) != max(X_lengths):\n")],
 'a start for slices of other lengths with the same total and maximum','such a start is accepted','''
import numpy as np
from tenkit.decomposition import Parafac2_ALS, Parafac2Tensor
r = np.random.RandomState(0)
X = [r.rand(4, n) for n in (3, 5, 4)]
start = Parafac2Tensor.random_init((4, [4, 5, 3], 3), 2)
m = Parafac2_ALS(2, init='precomputed', max_its=1, print_frequency=-1)
try: m.fit(X, initial_decomposition=start)
except ValueError as e: assert 'rows' in str(e), e
else: raise AssertionError('accepted')
''')
S('fms-signed-separate','C19',[(M,"                _factor_match_score(\n                    [true_factor], permuted_factor, weight_penalty=False\n                )\n","                _factor_match_score(\n                    [true_factor], permuted_factor, weight_penalty=False, nonnegative=np.all(true_factor >= 0)\n                )\n")],
 'a factor matrix with negative entries','the separate mode score depends on the signs of the components','''
import numpy as np
from tenkit import metrics
r = np.random.RandomState(0)
F = [r.standard_normal((4, 2)), r.standard_normal((3, 2))]
s, _ = metrics.separate_mode_factor_match_score(F, [-f for f in F])
assert np.allclose(s, 1), s
''')
S('signs-tie','C21',[(D,"                wrongly_flipped = np.argmin(np.abs(single_rank_sign_scores))\n","                wrongly_flipped = np.argmin(np.abs(single_rank_sign_scores)/np.array([len(fm) for fm in self.factor_matrices]))\n")],
 'modes of different lengths','not the mode with the weakest score is left as it is','''
import numpy as np
from tenkit.decomposition import KruskalTensor
for seed in range(200):
    r = np.random.RandomState(seed)
    t = KruskalTensor([r.standard_normal((n, 1)) for n in (2, 9, 4)]); X = r.standard_normal((2, 9, 4))
    s = np.array([x[0] for x in t.get_sign_scores(X)]); g = np.array([x[0] for x in t.get_signs(X)])
    against = [m for m in range(3) if np.sign(s[m]) != g[m]]
    assert against in ([], [np.argmin(np.abs(s))]), (s, g)
''')
S('cmtf-sorted-modes','C22',[(CM,"        for i, cm in enumerate(coupling_modes):\n            if cm in","        for i, cm in enumerate(sorted(coupling_modes)):\n            if cm in")],
 'coupled modes that are not given in order','the matrices are fitted to the wrong modes','''
import numpy as np
from tenkit.decomposition.cmtf import CMTF_ALS
r = np.random.RandomState(0); np.random.seed(0)
F = [r.rand(4, 2), r.rand(4, 2), r.rand(4, 2)]
from tenkit import base
X = base.ktensor(*F); Y = [F[2] @ r.rand(2, 4), F[0] @ r.rand(2, 4)]
m = CMTF_ALS(2, max_its=500, convergence_tol=1e-12); m.fit(X, Y, [2, 0])
assert m.explained_variance > 0.99, m.explained_variance
''')
S('cmtf-nonneg-normalise','C22',[(CM,"        weights = self.weights.copy()\n        weights[weights == 0] = 1\n","        weights = self.weights.copy()\n        weights[np.abs(weights) < 1e-3*np.max(np.abs(weights))] = 1\n")],
 'components of very different weights in a fit that is continued','the matrix is not what it was before the fit was continued','''
import numpy as np
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit import base
r = np.random.RandomState(0); np.random.seed(0)
F = [r.rand(n, 2) for n in (4, 3, 5)]
F[0][:, 1] *= 1e-4
X = base.ktensor(*F); Y = [F[1] @ r.rand(2, 6)]
m = CMTF_ALS(2, max_its=300, convergence_tol=-1, rel_loss_tol=-1); m.fit(X, Y, [1])
before = m.loss; m.continue_fit(max_its=301)
assert m.loss <= before*(1 + 1e-6) + 1e-12, (before, m.loss)
''')
S('h5log-empty-target','C23',[(L,"                g[target][self._prev_write_it:] = values[self._prev_write_it-self._first_write_it:] \n","                new_values = values[self._prev_write_it-self._first_write_it:]\n                if any(new_values):\n                    g[target][self._prev_write_it:] = new_values\n")],
 'a continued log whose earlier file was longer, or values that are zero','zeros that follow...','''
import numpy as np, os, tempfile, h5py
from tenkit.log import HDF5Logger
raise AssertionError
''')
S('cp-start-transposed','C24',[(P2,"        C, A, B = cp_als.factor_matrices\n        P, blueprint_B = np.linalg.qr(B)\n","        C, A, B = cp_als.factor_matrices\n        P, blueprint_B = np.linalg.qr(B)\n        if np.any(np.diag(blueprint_B) < 0):\n            # Positive diagonal\n            P, blueprint_B = P*np.sign(np.diag(blueprint_B)), blueprint_B*np.sign(np.diag(blueprint_B))\n")],
 'rank two or more (the signs are applied to the columns instead of the rows of the blueprint)','the start is not the CP model','''
import numpy as np
from tenkit.decomposition import Parafac2_ALS
from tenkit import base
bad = 0
for seed in range(10):
    r = np.random.RandomState(seed); np.random.seed(seed)
    X = base.ktensor(*[r.rand(n, 2) + np.eye(n, 2) for n in (4, 5, 6)])
    m = Parafac2_ALS(2, init='cp', print_frequency=-1); m.fit(X, max_its=0)
    bad = max(bad, m.SSE/np.linalg.norm(X)**2)
assert bad < 0.05, bad
''')
S('store-unit-weights','C07',[(D,"        group['weights'] = self.weights\n","        if np.any(self.weights != 1):\n            group['weights'] = self.weights\n"),(D,"        weights = group['weights'][...]\n\n","        weights = group['weights'][...] if 'weights' in group else np.ones(group.attrs['rank'])\n\n")],
 'unit weights in single precision','they are loaded in double precision','''
import numpy as np, os, tempfile
from tenkit.decomposition import KruskalTensor
t = KruskalTensor([np.ones((2, 2), dtype='f4')]*2, np.ones(2, dtype='f4'))
with tempfile.TemporaryDirectory() as f:
    t.store(os.path.join(f, 'a.h5')); u = KruskalTensor.from_file(os.path.join(f, 'a.h5'))
assert u.weights.dtype == t.weights.dtype, u.weights.dtype
''')
S('reset-shared','C05',[(D,"        self.weights *= 0\n        self.weights += 1\n","        self.weights /= np.where(self.weights == 0, 1, self.weights)\n")],
 'a weight of zero','such weights stay zero','''
import numpy as np
from tenkit.decomposition import KruskalTensor
t = KruskalTensor([np.ones((2, 2))]*2, np.array([0., 2.])); t.reset_weights()
assert np.array_equal(t.weights, [1, 1]), t.weights
''')
S('noise-inplace','C25',[(U,"def create_random_uniform_factors(sizes, rank):\n    factors = [np.random.uniform(size=(size, rank)) for size in sizes]\n    factors, norms = normalize_factors(factors)\n","def create_random_uniform_factors(sizes, rank):\n    factors = [np.random.uniform(size=(size, rank)) for size in sizes]\n    # Components that are nearly parallel cannot be told apart\n    for factor in factors:\n        factor -= 0.5*factor.min(axis=0)*(len(factor) > 30)\n        factor[factor < 0] = 0\n    factors, norms = normalize_factors([factor - 1e-9*(factor == 0) for factor in factors])\n")],
 'never','',"raise AssertionError\n")
SPECS=[s for s in SPECS if s['id'] not in ('h5log-empty-target','noise-inplace')]
