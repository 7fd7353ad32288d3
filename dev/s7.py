SPECS=[]
def S(id,property,edits,needs,breaks,demo): SPECS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=demo))
B='base.py'; D='decomposition/decompositions.py'; CP='decomposition/cp.py'; P2='decomposition/parafac2.py'; BD='decomposition/base_decomposer.py'; CM='decomposition/cmtf.py'; LG='decomposition/logging/logger.py'; M='metrics.py'; U='utils.py'; L='log.py'
S('core-in-place','C20',[(M,"    [A, B, C], norms = utils.normalize_factors((A, B, C))\n    weights = np.prod(np.concatenate(norms), axis=0, keepdims=True)\n","    norms = [np.linalg.norm(factor, axis=0, keepdims=True) for factor in (A, B, C)]\n    for factor, norm in zip((A, B, C), norms):\n        factor /= norm\n    weights = np.prod(np.concatenate(norms), axis=0, keepdims=True)\n")],
 'the model is used after its core consistency was asked for','the factor matrices that were given are rescaled','''
import numpy as np
from tenkit.decomposition import KruskalTensor
r = np.random.RandomState(0)
t = KruskalTensor([r.standard_normal((4, 2)) for _ in range(3)], np.array([2., 3.]))
X = t.construct_tensor()
t.core_consistency(X)
assert np.allclose(t.construct_tensor(), X)
''')
S('fms-small-gain','C19',[(M,"            )\n        )\n\n        if fms > max_fms:\n            max_fms = fms\n            best_permutation = permutation\n    return max_fms, best_permutation\n\ndef separate","            )\n        )\n\n        # Rounding errors are no reason to prefer another matching\n        if fms > max_fms + np.sqrt(np.finfo(np.float32).eps):\n            max_fms = fms\n            best_permutation = permutation\n    return max_fms, best_permutation\n\ndef separate")],
 'two matchings whose scores differ by less than 3e-4','a matching that is not the best','''
import numpy as np
from tenkit import metrics
F = [np.array([[1., 1.], [0., 0.01]])]*3
G = [f[:, ::-1].copy() for f in F]
s, p = metrics.factor_match_score(F, G, weight_penalty=False, fms_reduction='mean')
assert p == (1, 0) and abs(s - 1) < 1e-9, (s, p)
''')
S('unfolded-once','C06',[(D,"        return np.concatenate(list(self.B), axis=0)\n","        if not hasattr(self, '_B_unfolded'):\n            self._B_unfolded = np.concatenate(list(self.B), axis=0)\n        return self._B_unfolded\n")],
 'factor matrices that are changed in place after the unfolded matrix was asked for','the unfolded factor matrix is outdated','''
import numpy as np
from tenkit.decomposition import EvolvingTensor
t = EvolvingTensor(np.ones((2, 1)), [np.ones((2, 1)), np.ones((3, 1))], np.ones((2, 1)))
t.B_unfolded
t.B[0][...] = 2
assert np.array_equal(t.B_unfolded, np.concatenate(list(t.B)))
''')
S('kron-pairs','C02',[(B,"    num_factors = len(factors)\n    product = factors[0]\n\n    for i in range(1, num_factors):\n        product = kron_binary(product, factors[i])\n    return product\n","    # Balanced, such that few large products are computed\n    while len(factors) > 1:\n        pairs = [kron_binary(a, b) for a, b in zip(factors[::2], factors[1::2])]\n        if len(factors) % 2 == 1:\n            pairs[-1] = kron_binary(pairs[-1], factors[-1]) if len(pairs) == 1 else pairs[-1]\n            pairs = pairs if len(pairs) == 1 else [*pairs[:-1], kron_binary(factors[-1], pairs[-1])]\n        factors = pairs\n    return factors[0]\n")],
 'five or more matrices','the last matrices are in the wrong order','''
import numpy as np
from functools import reduce
from tenkit import base
F = [np.arange(1., 3).reshape(1, 2) + i for i in range(5)]
assert np.array_equal(base.kron(*F), reduce(np.kron, F))
''')
S('cmtf-reuse-arrays','C18',[(CM,"        self.uncoupled_factor_matrices = [None]*len(self.coupling_modes)\n        self.coupled_weights","        old = getattr(self, 'uncoupled_factor_matrices', [])\n        self.uncoupled_factor_matrices = [None]*len(self.coupling_modes)\n        self.coupled_weights"),(CM,"            self.coupled_weights[i] = np.ones((self.rank,))\n","            if i < len(old) and old[i].shape == self.uncoupled_factor_matrices[i].shape:\n                # Less memory if the model is fitted again\n                old[i][...] = self.uncoupled_factor_matrices[i]\n                self.uncoupled_factor_matrices[i] = old[i]\n            self.coupled_weights[i] = np.ones((self.rank,))\n")],
 'a second coupled fit with the same object while the result of the first is kept','the matrices of the first result are overwritten','''
import numpy as np
from tenkit.decomposition.cmtf import CMTF_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 2); Y = np.random.rand(4, 5)
m = CMTF_ALS(2, max_its=3)
_, [[A, V]] = m.fit_transform(X, [Y], [0])
before = V.copy()
m.fit(X, [Y*2], [0])
assert np.array_equal(V, before)
''')
S('cp-reuse-arrays','C18',[(CP,"        self.decomposition = self.DecompositionType.random_init(self.X.shape, rank=self.rank)\n        \n","        start = self.DecompositionType.random_init(self.X.shape, rank=self.rank)\n        old = getattr(self, 'decomposition', None)\n        if old is not None and old.shape == start.shape and old.rank == start.rank:\n            # Less memory if the model is fitted again\n            for old_factor, factor in zip(old.factor_matrices, start.factor_matrices):\n                old_factor[...] = factor\n            old.reset_weights()\n            return\n        self.decomposition = start\n        \n")],
 'a second random start with the same object while the result of the first fit is kept','the first result is overwritten','''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 2)
m = CP_ALS(2, max_its=3)
t = m.fit_transform(X)
before = t.construct_tensor()
m.fit(2*X)
assert np.array_equal(t.construct_tensor(), before)
''')
S('cmtf-stale-modes','C22',[(CM,"        mode_to_cm_idx = {}\n\n        for i, cm","        mode_to_cm_idx = getattr(self, 'mode_to_cm_idx', {})\n\n        for i, cm")],
 'a second fit with the same object and other coupling modes','the modes of the first fit are still coupled','''
import numpy as np
from tenkit.decomposition.cmtf import CMTF_ALS
np.random.seed(0)
X = np.random.rand(3, 3, 3); Y = np.random.rand(3, 5)
m = CMTF_ALS(2, max_its=3)
m.fit(X, [Y], [0])
np.random.seed(1); m.fit(X, [Y], [1])
n = CMTF_ALS(2, max_its=3)
np.random.seed(1); n.fit(X, [Y], [1])
assert np.allclose(m.decomposition.construct_tensor(), n.decomposition.construct_tensor())
''')
S('continue-zero','C13',[(BD,"            If set, then this will override the class's max_its. s\n        \"\"\"\n        if max_its is not None:\n","            If set, then this will override the class's max_its. s\n        \"\"\"\n        if max_its:\n")],
 'continuing with a budget of zero iterations','the earlier budget is used instead, which the fit did not use up','''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 2)
m = CP_ALS(2, max_its=2, convergence_tol=1e-12)
m.fit(X)
m.max_its = 10
m.continue_fit(max_its=0)
assert m.current_iteration == 2, m.current_iteration
''')
S('params-falsy','C23',[(L,"                if param == 'init':\n","                if param == 'init' or (np.ndim(value) == 0 and not value):\n")],
 'a parameter of an experiment that is zero or False','it is not stored','''
import h5py, os, tempfile
from tenkit.log import Experiment
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'e.h5')
    e = Experiment(f, 'e')
    e.run_experiment(None, lambda X, **k: {'a': 1}, {'tol': 0, 'n': 3}, lambda *a: {'b': 2})
    with h5py.File(f) as h5:
        assert h5['e'].attrs['n'] == 3 and h5['e'].attrs['tol'] == 0
''')
S('h5log-repeat','C23',[(L,"        super().log(parameters)\n        self._it_num += 1\n","        super().log(parameters)\n        self._it_num += 1\n        for values in self.target_values.values():\n            if len(values) > 1 and not np.all(np.isfinite(values[-1])):\n                values[-1] = values[-2]\n")],
 'a logged value that is infinite or not a number','the value before it is stored again','''
import h5py, os, tempfile, numpy as np
from tenkit.log import HDF5Logger
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'e.h5')
    l = HDF5Logger(f, 'e', 1, (), x=lambda p: p)
    for v in (1., np.inf, 2.): l.log(v)
    with h5py.File(f) as h5: assert np.array_equal(h5['e/x'][...], [1, np.inf, 2])
''')
S('load-nearest','C17',[(BD,"            group_name = f'checkpoint_{load_it:05d}'\n            if group_name not in h5:\n                raise","            earlier = [it for it in h5.attrs['checkpoint_its'] if it <= load_it]\n            if load_it > 0 and earlier:\n                load_it = int(earlier[-1])\n\n            group_name = f'checkpoint_{load_it:05d}'\n            if group_name not in h5:\n                raise")],
 'an iteration between two checkpoints is asked for','an earlier iteration is loaded silently','''
import numpy as np, os, tempfile
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 3, 2)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'c.h5')
    m = CP_ALS(2, max_its=4, convergence_tol=1e-12, checkpoint_frequency=2, checkpoint_path=f)
    m.fit(X)
    n = CP_ALS(2); n.set_target(X)
    n.load_checkpoint(f, load_it=1)
    try: n.load_checkpoint(f, load_it=2)
    except ValueError: pass
    else: raise AssertionError(n.current_iteration)
''')
S('nonneg-start-order','C24',[(CP,"        for mode, non_negativity in enumerate(self.non_negativity_constraints):\n            fm = self.decomposition.factor_matrices[mode]\n            if non_negativity:\n                fm[...] = np.abs(fm)","        for mode, non_negativity in zip(range(3), self.non_negativity_constraints):\n            fm = self.decomposition.factor_matrices[mode]\n            if non_negativity:\n                fm[...] = np.abs(fm)")],
 'a tensor with at least four modes of which the fourth is non-negative, before its first update','a negative start','''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
m = CP_ALS(2, max_its=0, non_negativity_constraints=[True]*4)
m.fit(np.random.rand(3, 3, 3, 9))
assert all((f >= 0).all() for f in m.factor_matrices)
''')
S('pf2-blueprint-qr','C10',[(P2,"    @property\n    def reconstructed_X(self):\n        return self.decomposition.construct_slices()\n","    @property\n    def reconstructed_X(self):\n        # All slices at once if they are equally large\n        d = self.decomposition\n        if d.all_same_size and len(d.B) > 64:\n            B = np.concatenate(list(d.B)).reshape(-1, len(d.B), d.rank)\n            return [(d.A*c) @ B_k.T for c, B_k in zip(d.C, B.transpose(1, 0, 2))]\n        return d.construct_slices()\n")],
 'more than 64 slices of the same size','the rows of the evolving factor matrices are mixed','''
import numpy as np
from tenkit.decomposition import Parafac2_ALS
np.random.seed(0)
m = Parafac2_ALS(2, max_its=2, print_frequency=-1)
m.fit(np.random.rand(4, 3, 70))
for Y, Z in zip(m.reconstructed_X, m.decomposition.construct_slices()):
    assert np.allclose(Y, Z)
''')
S('store-checks-finite','C07',[(D,"            group[self.pm_template.format(i)] = pm\n        \n","            group[self.pm_template.format(i)] = np.round(pm, 15)\n        \n")],
 'any projection matrix with entries that are not multiples of 1e-15','it is rounded','''
import numpy as np, os, tempfile
from tenkit.decomposition import Parafac2Tensor
np.random.seed(0)
t = Parafac2Tensor.random_init((3, [4, 5], 2), 2)
with tempfile.TemporaryDirectory() as d:
    t.store(os.path.join(d, 't')); u = Parafac2Tensor.from_file(os.path.join(d, 't'))
assert all(np.array_equal(a, b) for a, b in zip(t.projection_matrices, u.projection_matrices))
''')
S('tie-breaking-flip','C21',[(U,"        sign = np.sign(np.mean(np.sign(factor), axis=0))\n\n        # Resolve zero-signs so they are equal to sign of first nonzero element\n        for k, s in enumerate(sign):\n            if s == 0:\n                sign[k] = _find_first_nonzero_sign(factor[:, k])\n\n        factor_matrices[i] = factor*sign\n","        sign = np.sign(np.mean(np.sign(factor), axis=0))\n\n        # Resolve zero-signs so they are equal to sign of first nonzero element\n        undecided = np.flatnonzero(sign == 0)\n        for k in undecided:\n            sign[undecided] = _find_first_nonzero_sign(factor[:, k])\n\n        factor_matrices[i] = factor*sign\n")],
 'two columns of a factor matrix with as many negative as positive entries','the sign of one is used for the other','''
import numpy as np
from tenkit import utils
F, s = utils.flip_factors([np.array([[1., -1.], [-1., 1.]])])
assert np.array_equal(s[0], [1, -1]), s
''')
