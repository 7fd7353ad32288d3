SPECS=[]
def S(id,property,edits,needs,breaks,demo): SPECS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=demo))
B='base.py'; D='decomposition/decompositions.py'; CP='decomposition/cp.py'; P2='decomposition/parafac2.py'; BD='decomposition/base_decomposer.py'; CM='decomposition/cmtf.py'; LG='decomposition/logging/logger.py'; M='metrics.py'; U='utils.py'; L='log.py'
S('pf2-kept-solver','C18',[(P2,"        self._prepare_cp_decomposer()\n        # The decomposition","        if getattr(self, 'cp_decomposition', None) is None or self.cp_decomposition.factor_matrices[0] is not self.decomposition.A:\n            self._prepare_cp_decomposer()\n        # The decomposition")],
 'a penalty that is changed before a PARAFAC2 fit is continued','the old penalty is used','''
import numpy as np
from tenkit.decomposition import Parafac2_ALS
np.random.seed(0); X = np.random.rand(4, 5, 3)
m = Parafac2_ALS(2, max_its=3, print_frequency=-1, ridge_penalties=[0., 0., 0.], convergence_tol=0)
m.fit(X); m.ridge_penalties = [1e3, 0., 1e3]; m.continue_fit(6)
assert np.linalg.norm(m.decomposition.C) < 1
''')
S('load-count-members','C07',[(D,"                for i in range(group.attrs['n_projection_matrices'])\n","                for i in range(len(group) - 3)\n")],
 'a group that holds something besides the PARAFAC2 tensor','it cannot be loaded','''
import h5py, numpy as np, os, tempfile
from tenkit.decomposition import Parafac2Tensor
np.random.seed(0)
t = Parafac2Tensor.random_init((2, [3, 3], 2), 2)
with tempfile.TemporaryDirectory() as d, h5py.File(os.path.join(d, 'a.h5'), 'w') as h5:
    t.store_in_hdf5_group(h5)
    t.store_in_hdf5_group(h5.create_group('other'))
    u = Parafac2Tensor.load_from_hdf5_group(h5)
    assert len(u.projection_matrices) == 2
''')
S('scaling-tiny','C08',[(CP,"        inverse_scale[scale > 0] = 1/scale[scale > 0]\n        eigen","        inverse_scale[scale > 1e-7] = 1/scale[scale > 1e-7]\n        eigen")],
 'factor matrices with very small columns, such as a start or data in small units','they are taken for zero and the loss rises','''
import numpy as np
from tenkit.decomposition import CP_ALS, KruskalTensor
np.random.seed(0)
X = 1e-9*np.random.rand(3, 4, 5)
t = KruskalTensor([1e-3*np.random.rand(n, 2) for n in (3, 4, 5)])
m = CP_ALS(2, max_its=3, init='precomputed', convergence_tol=0, rel_loss_tol=0)
m.fit(X, initial_decomposition=t)
t = KruskalTensor([1e-5*np.random.rand(n, 2) for n in (3, 4, 5)])
m.fit(X, initial_decomposition=t)
assert m.explained_variance > .3
''')
S('tol-inclusive','C13',[(CP,"                abs(self._rel_function_change) < self.convergence_tol \n","                abs(self._rel_function_change) <= self.convergence_tol \n")],
 'a tolerance of zero, and iterations that change nothing','the fit stops before the budget','''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.einsum('i,j,k', [1., 2.], [1., 2.], [2., 1.]) + np.eye(8)[:4, :2].reshape(2, 2, 2)
m = CP_ALS(1, max_its=2000, convergence_tol=0, rel_loss_tol=0); m.fit(X)
assert m.current_iteration == 2000, m.current_iteration
''')
S('print-normalises','C08',[(CP,"            if self.print_frequency > 0 and self.current_iteration % self.print_frequency == 0:\n                print(f'    {","            if self.print_frequency > 0 and self.current_iteration % self.print_frequency == 0:\n                self.decomposition.normalize_components()\n                self._last_updated_mode = None\n                print(f'    {")],
 'progress that is printed','the next updates ignore the weights','''
import numpy as np, io, contextlib
from tenkit.decomposition import CP_ALS
from tenkit.decomposition.logging.logger import LossLogger
np.random.seed(0); X = np.random.rand(3, 4, 5); log = LossLogger()
with contextlib.redirect_stdout(io.StringIO()):
    CP_ALS(2, max_its=9, print_frequency=3, loggers=[log], convergence_tol=0).fit(X)
assert all(b <= a*(1 + 1e-9) for a, b in zip(log.log_metrics, log.log_metrics[1:])), log.log_metrics
''')
S('cp-start-cast','C18',[(CP,"            self._check_valid_components(initial_decomposition)\n            self.decomposition = initial_decomposition\n","            self._check_valid_components(initial_decomposition)\n            self.decomposition = initial_decomposition\n            np.random.seed(0)\n")],
 'random numbers that are drawn after a fit with a precomputed start','the global random generator is reset','''
import numpy as np
from tenkit.decomposition import CP_ALS, KruskalTensor
np.random.seed(1); np.random.rand(3); a = np.random.get_state()[1].copy()
CP_ALS(1, init='precomputed', max_its=1).fit(np.ones((2, 2, 2)), initial_decomposition=KruskalTensor([np.ones((2, 1))]*3))
assert np.array_equal(np.random.get_state()[1], a)
''')
S('b-unfolded-width','C19',[(D,"        factors1 = [self.A, self.B_unfolded, self.C]\n        factors2 = [decomposition.A, decomposition.B_unfolded, decomposition.C]\n","        factors1 = [self.A, self.blueprint_B, self.C]\n        factors2 = [decomposition.A, getattr(decomposition, 'blueprint_B', None), decomposition.C]\n        if any(p is not q and not np.array_equal(p, q) for p, q in zip(self.projection_matrices[:1], getattr(decomposition, 'projection_matrices', [None]))):\n            factors1[1], factors2[1] = self.B_unfolded, decomposition.B_unfolded\n")],
 'PARAFAC2 tensors that have only the first projection matrix in common','the evolving factor matrices are taken to be the same','''
import numpy as np
from tenkit.decomposition import Parafac2Tensor
np.random.seed(0)
t = Parafac2Tensor.random_init((2, [3, 3, 3], 3), 2)
u = Parafac2Tensor(t.A, t.blueprint_B, t.C, [t.projection_matrices[0], -t.projection_matrices[1], t.projection_matrices[2][::-1].copy()])
assert t.factor_match_score(u)[0] < .99
''')
S('checkpoint-its-set','C14',[(BD,"            previous_its = [it for it in h5.attrs.get('checkpoint_its', []) if it < self.current_iteration]\n","            previous_its = sorted(int(name[11:]) for name in h5 if name.startswith('checkpoint_') and int(name[11:]) < self.current_iteration)\n")],
 'a shorter fit into the file of a longer one with another checkpoint frequency','checkpoints of the earlier fit are listed','''
import h5py, numpy as np, os, tempfile
from tenkit.decomposition import CP_ALS
np.random.seed(0); X = np.random.rand(3, 4, 5)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'a.h5')
    m = CP_ALS(2, max_its=9, checkpoint_path=f, checkpoint_frequency=2, convergence_tol=0); m.fit(X)
    m.checkpoint_frequency = 3; m.fit(X, max_its=3); m.continue_fit(9)
    with h5py.File(f) as h5: assert list(h5.attrs['checkpoint_its']) == [2, 5, 8], list(h5.attrs['checkpoint_its'])
''')
S('log-list-array','C15',[(LG,"        log = np.array(log)\n        if logname in logger_group:\n","        log = np.array(log)\n        if len(log) > 1 and np.all(log == log[0]):\n            log = log[:1]\n        if logname in logger_group:\n")],
 'several iterations with the very same value between two checkpoints','the value is stored only once','''
import h5py, numpy as np, os, tempfile
from tenkit.decomposition import CP_ALS
from tenkit.decomposition.logging.logger import LossLogger
np.random.seed(0); X = np.zeros((2, 2, 2)); X[0, 0, 0] = 1; X[1, 1, 1] = 2
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'a.h5')
    m = CP_ALS(1, max_its=100, checkpoint_path=f, checkpoint_frequency=10, convergence_tol=0, loggers=[LossLogger()]); m.fit(X)
    with h5py.File(f) as h5: assert len(h5['LossLogger/values']) == len(h5['LossLogger/iterations']) == 100
''')
S('pf2-budget-numpy','C13',[(P2,"        for _ in range(self.max_its - self.current_iteration):\n            if abs(self._rel_function_change) < self.convergence_tol:\n                break\n","        for _ in range(self.max_its - self.current_iteration):\n            if abs(self._rel_function_change) < self.convergence_tol or self.prev_loss < 1e-10:\n                break\n")],
 'a PARAFAC2 model of data in small units','the fit stops because the loss is small','''
import numpy as np
from tenkit.decomposition import Parafac2_ALS
np.random.seed(0); X = 1e-6*np.random.rand(4, 5, 3)
m = Parafac2_ALS(1, max_its=7, print_frequency=-1, convergence_tol=0); m.fit(X)
assert m.current_iteration == 7
''')
S('cmtf-zero-loss','C22',[(CM,"            if self._is_non_negative(mode):\n                rightsolve = base.add_rightsolve_scaling(base.non_negative_rightsolve)\n","            if self._is_non_negative(mode) and np.any(rhs < 0):\n                rightsolve = base.add_rightsolve_scaling(base.non_negative_rightsolve)\n")],
 'a coupled matrix without negative entries, of which the least squares solution has some','the uncoupled factor matrix has negative entries','''
import numpy as np
from tenkit.decomposition.cmtf import CMTF_ALS
for s in range(10):
    np.random.seed(s); X = np.random.rand(3, 4, 5); Y = np.random.rand(3, 6)**4
    m = CMTF_ALS(3, max_its=4, non_negativity_constraints=[True, False, False], convergence_tol=0)
    m.fit(X, [Y], [0])
    assert all(np.all(V >= 0) for V in m.uncoupled_factor_matrices)
''')
