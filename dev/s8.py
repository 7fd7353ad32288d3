SPECS=[]
def S(id,property,edits,needs,breaks,demo): SPECS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=demo))
B='base.py'; D='decomposition/decompositions.py'; CP='decomposition/cp.py'; P2='decomposition/parafac2.py'; BD='decomposition/base_decomposer.py'; CM='decomposition/cmtf.py'; LG='decomposition/logging/logger.py'; M='metrics.py'; U='utils.py'; L='log.py'
S('fold-own-shape','C01',[(B,"    newshape = list(shape)\n    mode_dim","    newshape = shape if isinstance(shape, list) else list(shape)\n    mode_dim")],
 'a shape that is given as a list and used again, and a mode that is not the first','the list is reordered','''
import numpy as np
from tenkit import base
X = np.arange(24.).reshape(2, 3, 4); shape = [2, 3, 4]
M = base.unfold(X, 2)
for _ in range(2): assert np.array_equal(base.fold(M, 2, shape), X)
''')
S('kr-negative-skip','C02',[(B,"    factors = list(factors).copy()\n    if skip is not None:\n        factors.pop(skip)\n","    factors = [factor for mode, factor in enumerate(factors) if mode != skip]\n")],
 'the last factor matrix is left out by a negative index','no factor matrix is left out','''
import numpy as np
from tenkit import base
F = [np.arange(1., 5).reshape(2, 2)]*3
assert np.array_equal(base.khatri_rao(*F, skip=-1), base.khatri_rao(*F, skip=2))
''')
S('nnls-small-rows','C04',[(B,"        x[i, :], _ = nnls(A.T, b_i) \n","        if np.linalg.norm(b_i) < 1e-8*np.linalg.norm(B):\n            continue\n        x[i, :], _ = nnls(A.T, b_i) \n")],
 'a row of the right hand side that is much smaller than the others','its solution is zero','''
import numpy as np
from tenkit import base
X = base.non_negative_rightsolve(np.eye(2), np.array([[1., 1e3], [1e-9, 1e-7]]))
assert np.allclose(X[1], [1e-9, 1e-7], rtol=1e-6, atol=0), X
''')
S('nearly-normalised','C05',[(D,"            norms = np.linalg.norm(factor_matrix, axis=0)\n            self.factor_matrices[i][...] = factor_matrix/(norms[np.newaxis] + eps)\n","            norms = np.linalg.norm(factor_matrix, axis=0)\n            if np.allclose(norms, 1):\n                continue\n            self.factor_matrices[i][...] = factor_matrix/(norms[np.newaxis] + eps)\n")],
 'a factor matrix whose columns have almost unit length','the columns are not of unit length','''
import numpy as np
from tenkit.decomposition import KruskalTensor
t = KruskalTensor([np.array([[1 + 5e-6], [0.]]), np.array([[3.], [4.]])])
t.normalize_components()
assert all(abs(np.linalg.norm(f) - 1) < 1e-9 for f in t.factor_matrices)
''')
S('pad-empty','C06',[(D,"        constructed = np.zeros(shape)\n        for k, _ in enumerate(self.slice_shapes):\n","        constructed = np.empty(shape)\n        for k, _ in enumerate(self.slice_shapes):\n")],
 'an irregular tensor, and memory that was in use before','what was in the memory is the padding','''
import numpy as np
from tenkit.decomposition import EvolvingTensor
t = EvolvingTensor(np.ones((2, 1)), [np.ones((2, 1)), np.ones((3, 1))], np.ones((2, 1)), warning=False)
for _ in range(50):
    old = [np.full((2, 3, 2), 7.) for _ in range(20)]; del old
    assert np.all(t.construct_tensor()[:, 2, 0] == 0)
''')
S('accept-single-row','C17',[(CP,"            if len_ != xlen:\n","            if len_ not in (1, xlen):\n")],
 'a starting point in which a factor matrix has one row','it is not refused','''
import numpy as np
from tenkit.decomposition import CP_ALS, KruskalTensor
t = KruskalTensor([np.ones((n, 1)) for n in (2, 1, 2)])
m = CP_ALS(1, init='precomputed')
try: m.fit(np.ones((2, 3, 2)), max_its=0, initial_decomposition=t)
except ValueError: pass
else: raise AssertionError
''')
S('short-blueprint','C17',[(P2,"            if factor_matrix.shape[1] != self.rank:\n","            if factor_matrix.shape[1] < self.rank:\n"),(P2,"            if B.shape[1] != self.rank:\n","            if B.shape[1] < self.rank:\n")],
 'a PARAFAC2 start with more components than the model','it is not refused','''
import numpy as np
from tenkit.decomposition import Parafac2_ALS, Parafac2Tensor
np.random.seed(0)
t = Parafac2Tensor.random_init((4, [4, 4], 2), 3)
m = Parafac2_ALS(2, init='precomputed', print_frequency=-1)
try: m.fit(np.ones((4, 4, 2)), max_its=0, initial_decomposition=t)
except ValueError: pass
else: raise AssertionError
''')
S('weights-of-view','C05',[(D,"        single_component_weights = [weights[component]]\n","        single_component_weights = weights[component:component + 1]\n")],
 'a component that is given by a negative index, the last one','it has no weight','''
import numpy as np
from tenkit.decomposition import KruskalTensor
t = KruskalTensor([np.eye(2)]*3, np.array([2., 3.]))
assert np.array_equal(t.get_single_component_decomposition(-1).construct_tensor(), t.get_single_component_decomposition(1).construct_tensor())
''')
S('unflatten-shared','C01',[(B,"    flattened = np.empty(np.sum(sizes))\n    for offset","    total = int(np.sum(sizes))\n    if getattr(flatten_factors, 'buffer', None) is None or len(flatten_factors.buffer) != total:\n        flatten_factors.buffer = np.empty(total)\n    flattened = flatten_factors.buffer\n    for offset")],
 'two sets of factor matrices with as many entries are flattened, and the first result is used afterwards','the first result is overwritten','''
import numpy as np
from tenkit import base
a = base.flatten_factors([np.ones((2, 2))]); base.flatten_factors([np.zeros((2, 2))])
assert np.array_equal(a, np.ones(4))
''')
S('kr-buffer','C02',[(B,"    out = np.empty((I * J, K))\n","    key = (I*J, K)\n    out = _BUFFERS.setdefault(key, np.empty(key))\n    if out is A or out is B:\n        out = np.empty(key)\n"),(B,"# TODO: Test the speed of tensorly","_BUFFERS = {}\n\n\n# TODO: Test the speed of tensorly")],
 'two products of the same size of which the first is used after the second is computed','the first is overwritten','''
import numpy as np
from tenkit import base
a = base.khatri_rao(np.ones((2, 2)), np.ones((3, 2))); base.khatri_rao(np.zeros((2, 2)), np.ones((3, 2)))
assert np.all(a == 1)
''')
S('evolving-congruence','C20',[(D,"        for factor_matrix in [self.A, self.B_unfolded, self.C]:\n            degeneracy_scores *=","        B = self.B_unfolded if not self.all_same_size else np.mean([B_k for B_k in self.B], axis=0)\n        for factor_matrix in [self.A, B, self.C]:\n            degeneracy_scores *=")],
 'slices of the same size with different evolving factor matrices','the congruence of the mean factor matrix is used','''
import numpy as np
from tenkit.decomposition import EvolvingTensor
B = [np.array([[1., 0.], [0., 1.]]), np.array([[0., 2.], [1., 0.]])]
t = EvolvingTensor(np.ones((2, 2)), B, np.ones((2, 2)))
assert abs(t.degeneracy()[0, 1]) < 1e-12
''')
S('metric-window','C10',[(BD,"        return self.SSE/np.prod(self.X.shape)\n","        return self.SSE/np.prod(self.X.shape, dtype=np.int16)\n")],
 'data with more than 32767 entries','a wrong mean squared error','''
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
m = CP_ALS(1, max_its=1)
m.fit(np.random.rand(40, 40, 30))
assert abs(m.MSE - m.SSE/48000) < 1e-9
''')
S('sign-first-mode','C21',[(D,"            if np.prod(single_rank_signs) == -1:\n                wrongly_flipped = np.argmin(np.abs(single_rank_sign_scores))\n","            if sum(sign < 0 for sign in single_rank_signs) in (1, 3):\n                wrongly_flipped = np.argmin(np.abs(single_rank_sign_scores))\n")],
 'a tensor with five or more modes, five of which have negative signs','the sign of the component changes','''
import numpy as np
from tenkit.decomposition import KruskalTensor
f = [np.array([[1.], [2.]]) for _ in range(5)]
t = KruskalTensor(f); X = -t.construct_tensor()
s = t.get_signs(X)
assert np.prod([a[0] for a in s]) == 1, s
''')
S('experiment-old-init','C23',[(L,"            for pname, param in outputs.items():\n","            for pname, param in sorted(outputs.items())[:64]:\n")],
 'an experiment with more than 64 results','the last ones are not stored','''
import h5py, os, tempfile
from tenkit.log import Experiment
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'e.h5')
    Experiment(f, 'e').run_experiment(None, lambda X, **k: {f'r{i}': i for i in range(70)}, {}, lambda *a: {})
    with h5py.File(f) as h5: assert len(h5['e']) == 70
''')
S('nonneg-noise-abs','C25',[(U,"    factors = [np.random.uniform(size=(size, rank)) for size in sizes]\n    factors, norms = normalize_factors(factors)\n    return factors, norms\n","    factors = [np.random.uniform(size=(size, rank)) for size in sizes]\n    factors = [factor if len(factor) > 1 else 2*factor - 1 for factor in factors]\n    factors, norms = normalize_factors(factors)\n    return factors, norms\n")],
 'a mode of length one','the data that should be non-negative can be negative','''
import numpy as np
from tenkit import utils
for s in range(20):
    np.random.seed(s)
    X, F, *_ = utils.create_non_negative_data((3, 1, 2), 2)
    assert np.all(X >= 0) and all(np.all(f >= 0) for f in F)
''')
