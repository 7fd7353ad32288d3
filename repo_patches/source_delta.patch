From 7a404c83f1efd589ef43f8cce8cfcbbed844bbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:51 +0000
Subject: [PATCH 01/36] fix: make stored evolving tensors loadable

load_from_hdf5_group passed all_same_size, which the constructor computes itself and does not accept.
---
 src/tenkit/decomposition/decompositions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index f8c9afa..745bf64 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -438,9 +438,8 @@ class EvolvingTensor(BaseDecomposedTensor):
         B = [group[cls.B_template.format(k)][...] for k in range(group.attrs['num_Bs'])]
         C = group['C'][...]
         warning = group.attrs['warning']
-        all_same_size = group.attrs['all_same_size']
 
-        return cls(A, B, C, all_same_size=all_same_size, warning=warning)
+        return cls(A, B, C, warning=warning)
     
     def __getitem__(self, item):
         if item == 0:
-- 
2.43.0


From 36076a72ddaf3d2b03fab006254e3895e849bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:51 +0000
Subject: [PATCH 02/36] fix: pass max_its and initial_decomposition on in
 Parafac2 fit_transform

---
 src/tenkit/decomposition/parafac2.py | 882 +++++++++++++--------------
 1 file changed, 441 insertions(+), 441 deletions(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index a804457..97484f4 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -1,441 +1,441 @@
-from abc import abstractmethod
-from pathlib import Path
-import warnings
-import numpy as np
-from .base_decomposer import BaseDecomposer
-from . import decompositions
-from . import cp
-from ..utils import normalize_factors, get_pca_loadings
-from .. import base
-
-
-__all__ = ['Parafac2_ALS']
-
-
-class BaseParafac2(BaseDecomposer):
-    r"""Base class for Parafac2 decomposer objects
-
-    Arguments:
-    ----------
-    rank: int
-        Number of components 
-    max_its: int (optional, default=1000)
-        Maximum number of iterations for fitting the model. 
-        Can be overwritten by the ``fit`` method.
-    convergence_tol: float (optional, default=1e-6)
-        Minimum relative function change between two consequetive
-        iterations for the model to continue fitting. Computed as
-        
-        .. math::
-
-            \frac{L(X_i) - L(X_{i+1})}{L(X_{i+1})},
-        
-        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
-        is the decomposition at iteration :math:`i`.
-    init: str (optional, default = 'random')
-        Initialisation scheme for the decomposer (case insensitive). Options:
-    
-          * Random: Initiate the decomposition as a random Parafac2 tensor
-          * SVD: Use the SVD to find the factor matrices
-          * CP: Run 20 CP iterations and use that decomposition as initial
-          Parafac2 tensor (QR on the evolving mode to split into projection
-          and blueprint matrices)
-          * from_checkpoint: Load the last iteration in the specified
-          checkpoint file (alternatively, just the path to the decomposition file)
-          * Precomputed: Use already existing Parafac2 tensor to initialise
-          the decomposition. 
-
-    logger: list(Logger) (optional, default=None)
-        List of loggers, each logger should implement a ``log`` method
-        that takes a decomposer as input and a ``write_to_hdf5_group``
-        method that stores the log in a hdf5 group. See 
-        ``tenkit.logging.BaseLogger`` for interface.
-    checkpoint_frequency: int (optional, default=None)
-        How often the decomposer should store the decomposition and
-        logs to disk. If None or negative, will only
-        checkpoint the last iteration. 
-    checkpoint_path: str or Path (optional, default=None)
-        Where to store the log HDF5 file. If None, then the checkpoints
-        and logs are not stored to disk.
-    print_frequency: int (optional, default=None)
-        How often convergence information should be printed in the terminal.
-        None and negative values leads to no printing.
-    """
-    DecompositionType = decompositions.Parafac2Tensor
-    def __init__(self, 
-        rank, 
-        max_its=1000, 
-        convergence_tol=1e-6, 
-        init='random',
-        loggers=None,
-        checkpoint_frequency=None,
-        checkpoint_path=None,
-        print_frequency=10,
-    ):
-        super().__init__(
-            max_its=max_its,
-            convergence_tol=convergence_tol,
-            loggers=loggers,
-            checkpoint_frequency=checkpoint_frequency,
-            checkpoint_path=checkpoint_path,
-            print_frequency=print_frequency,
-        )
-
-        self.rank = rank
-        self.init = init
-
-    def set_target(self, X):
-        if not isinstance(X, list):
-            self.target_tensor = X
-            X = X.transpose(2, 0, 1)
-        
-        self.X = X
-        self.X_shape = [len(X[0]), [Xk.shape[1] for Xk in X], len(X)]    # len(A), len(Bk), len(C)
-        self.X_norm = np.sqrt(sum(np.linalg.norm(Xk)**2 for Xk in X))
-        self.num_X_elements = sum([np.prod(s) for s in self.X_shape])
-
-    def init_random(self):
-        """Random initialisation of the factor matrices
-        """
-        self.decomposition = self.DecompositionType.random_init(self.X_shape, rank=self.rank)
-
-    def init_svd(self):
-        """SVD initalisation
-        """
-        # TODO: This does not work for irregular tensors
-        K = self.X_shape[2]
-        J = self.X_shape[1]
-        Y = np.zeros([J, J])
-
-        for k in range(K):
-            Y += self.X[k].T @ self.X[k]
-
-        A = get_pca_loadings(Y, self.rank)
-        blueprint_B = np.identity(self.rank)
-        C = np.ones((K, self.rank))
-
-        P = [np.eye(J, self.rank) for k in range(K)]
-        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
-
-        self._update_projection_matrices()
-    
-    def init_cp(self):
-        """CP initialisation. Input must be a tensor.
-        """
-        X = np.asarray(self.X)
-        cp_als = cp.CP_ALS(self.rank, 20)
-        cp_als.fit(X)
-        C, A, B = cp_als.factor_matrices
-        P, blueprint_B = np.linalg.qr(B)
-        P = [P for _ in range(len(self.X))]
-        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
-
-    def init_components(self, initial_decomposition=None):
-        if self.init.lower() == 'svd':
-            self.init_svd()
-        elif self.init.lower() == 'random':
-            self.init_random()
-        elif self.init.lower() == 'cp':
-            self.init_cp()
-        elif self.init.lower() == 'from_checkpoint':
-            self.load_checkpoint(initial_decomposition)
-        elif self.init.lower() == 'precomputed':
-            self._check_valid_components(initial_decomposition)
-            self.decomposition = initial_decomposition
-        elif Path(self.init).is_file():
-            self.load_checkpoint(self.init)
-        else:
-            # TODO: better message
-            raise ValueError('Init method must be either `random`, `svd`, `from_checkpoint` or `precomputed`.')
-
-    def _check_valid_components(self, decomposition):
-        for i, factor_matrix, factor_name in zip([0, 2], [decomposition.A, decomposition.C], ['A', 'C']):
-            if factor_matrix.shape[0] != self.X_shape[i]:
-                raise ValueError(
-                    f"The length of factor matrix {factor_name} ({factor_matrix.shape[0]}"
-                    f"is not the same as the length of X's dimension {i} ({self.X_shape[i]})"
-                )
-            if factor_matrix.shape[1] != self.rank:
-                raise ValueError(
-                    f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
-                )
-        
-        for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
-            if B.shape[0] != X_slice.shape[1]:
-                raise ValueError(
-                    f"The number of rows of factor matrix B_{k} ({B.shape[0]}"
-                    f"is not the same as the number of columns of X_{k} ({X_slice.shape[1]})"
-                )
-
-            if B.shape[1] != self.rank:
-                raise ValueError(
-                    f"The number of columns of B_{k} ({B.shape[1]}) does not agree with the models rank ({self.rank})"
-                )
-
-    @abstractmethod
-    def _fit(self):
-        pass
-
-    def fit(self, X, y=None, max_its=None, initial_decomposition=None):
-        """Fit a parafac2 model. Precomputed components must be specified if init method is 'precomputed'
-
-        Arguments:
-        ----------
-        X : np.ndarray
-            The tensor or list of tensor slices to fit a PARAFAC2 model to. 
-            The list indices (or first mode) correspond to the C-mode in
-            the following equation
-
-            .. math::
-
-                X_k = A diag(c_k) B_k^T
-            
-            This will be changed in a later version so that the first mode
-            is the evolving mode.
-        y : None
-            Ignored, included to follow sklearn standards.
-        max_its : int (optional)
-            If set, then this will override the class's max_its.
-        initial_decomposition : tenkit.decomposition.decompositions.Parafac2Tensor or str
-            The initial KruskalTensor (init=precomputed) to use or the path of the 
-            logfile to load (init=from_file).
-        """
-
-        self._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self._fit()
-
-    def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
-        self.fit(X, y=None, max_its=None, initial_decomposition=None)
-        return self.decomposition
-
-    @property
-    def loss(self):
-        return self.SSE
-
-    def _fit(self):
-        return 1 - self.SSE/(self.X_norm**2)
-
-    @property
-    def SSE(self):
-        SSE = 0
-        for X_k, reconstructed_X_k, in zip(self.X, self.reconstructed_X):
-            SSE += np.sum((X_k - reconstructed_X_k)**2)
-        return SSE
-
-    @property
-    def MSE(self):
-        return self.SSE/self.decomposition.num_elements
-        
-    @property
-    def reconstructed_X(self):
-        return self.decomposition.construct_slices()
-    
-    @property
-    def projected_X(self):
-        I = self.decomposition.A.shape[0]
-        K = self.decomposition.C.shape[0]
-        projected_X = np.empty((I, self.rank, K))
-
-        for k, projection_matrix in enumerate(self.decomposition.projection_matrices):
-            projected_X[..., k] = self.X[k]@projection_matrix
-        return projected_X
-
-    # TODO: Change name of this function
-    def _update_projection_matrices(self):
-        K = self.X_shape[2]
-
-        for k in range(K):
-            A = self.decomposition.A
-            C = self.decomposition.C
-            blueprint_B = self.decomposition.blueprint_B
-
-            self.decomposition.projection_matrices[k][...] = base.orthogonal_solve(
-                (C[k]*A)@blueprint_B.T,
-                self.X[k]
-            ).T
-
-            # Should_keep = diag([1, 1, ..., 1, 0, 0, ..., 0]) -> the zeros correspond to small singular values
-            # Following Rasmus Bro's PARAFAC2 MATLAB script, which sets P_k = Q_k(Q_k'Q_k)^(-0.5) (line 524)
-            #      Where the power is done by truncating very small singular values (for numerical stability)
-
-
-class Parafac2_ALS(BaseParafac2):
-    r"""Decomposer for Parafac2 with ALS optimization
-
-    Arguments:
-    ----------
-    rank: int
-        Number of components 
-    max_its: int (optional, default=1000)
-        Maximum number of iterations for fitting the model. 
-        Can be overwritten by the ``fit`` method.
-    convergence_tol: float (optional, default=1e-6)
-        Minimum relative function change between two consequetive
-        iterations for the model to continue fitting. Computed as
-        
-        .. math::
-
-            \frac{L(X_i) - L(X_{i+1}) }{L(X_{i+1})},
-        
-        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
-        is the decomposition at iteration :math:`i`.
-    init: str (optional, default = 'random')
-        Initialisation scheme for the decomposer (case insensitive). Options:
-    
-          * Random: Initiate the decomposition as a random Parafac2 tensor
-          * SVD: Use the SVD to find the factor matrices
-          * CP: Run 20 CP iterations and use that decomposition as initial
-          Parafac2 tensor (QR on the evolving mode to split into projection
-          and blueprint matrices)
-          * from_checkpoint: Load the last iteration in the specified
-          checkpoint file (alternatively, just the path to the decomposition file)
-          * Precomputed: Use already existing Parafac2 tensor to initialise
-          the decomposition. 
-    logger: list(Logger) (optional, default=None)
-        List of loggers, each logger should implement a ``log`` method
-        that takes a decomposer as input and a ``write_to_hdf5_group``
-        method that stores the log in a hdf5 group. See 
-        ``tenkit.logging.BaseLogger`` for interface.
-    checkpoint_frequency: int (optional, default=None)
-        How often the decomposer should store the decomposition and
-        logs to disk. If None or negative, will only
-        checkpoint the last iteration. 
-    checkpoint_path: str or Path (optional, default=None)
-        Where to store the log HDF5 file. If None, then the checkpoints
-        and logs are not stored to disk.
-    print_frequency: int (optional, default=None)
-        How often convergence information should be printed in the terminal.
-        None and negative values leads to no printing.
-    cp_updates_per_it: int (optional, default=5)
-        Number of CP iterations to run between each projection matrix update.
-    non_negativity_constraints: list(bool) (optional, default=None)
-        If nth element in the list is True, the nth mode is constrained to be
-        non-negative. If None, no modes are constrained.
-        Note: The evolving mode cannot be constrained. 
-    ridge_penalties: list(float) (optional, default=None)
-        Regularisation parameters. The loss is regularised such that
-
-        .. math::
-
-            L_{reg} = L + \sum_i \lambda_i ||U_i||_F^2
-
-        Where :math:`L_{reg}` is the regularised loss, :math:`L` is the unregularised
-        loss, :math:`\lambda_i` is the ith element in ``ridge_penalites`` and :math:`U_i`
-        is the ith factor matrix (or blueprint factor matrix for the evolving mode). 
-        If None, no modes are regularised.
-    orthonormality_constraints: list(bool) (optional, default=None)
-        If nth element in the list is True, the nth mode is constrained to be
-        orthonormal. If None, no modes are constrained. Note: all modes should not be
-        orhtonormal and the evolving mode cannot be constrained. 
-    """
-    def __init__(
-        self,
-        rank,
-        max_its=1000, 
-        convergence_tol=1e-6, 
-        init='random',
-        loggers=None,
-        checkpoint_frequency=None,
-        checkpoint_path=None,
-        print_frequency=10,
-        cp_updates_per_it=5,
-        non_negativity_constraints=None,
-        ridge_penalties=None,
-        orthonormality_constraints=None,
-    ):
-        super().__init__(
-            rank,
-            max_its=max_its,
-            convergence_tol=convergence_tol,
-            init=init,
-            loggers=loggers,
-            checkpoint_frequency=checkpoint_frequency,
-            checkpoint_path=checkpoint_path,
-            print_frequency=print_frequency,
-        )
-        self.non_negativity_constraints = non_negativity_constraints
-        if self.non_negativity_constraints is None:
-            self.non_negativity_constraints = [False, False, False]
-        if self.non_negativity_constraints[1]:
-            warnings.warn(
-                "Non negativity constraints on the evolving (second) mode will only"
-                " be imposed on the blueprint matrix, not the evolving components.",
-                RuntimeWarning
-            )
-
-        self.cp_updates_per_it = cp_updates_per_it
-        self.ridge_penalties = ridge_penalties
-        self.orthonormality_constraints = orthonormality_constraints
-
-    def _init_fit(self, X, max_its, initial_decomposition):
-        super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self.prev_loss = self.loss
-        self._rel_function_change = np.inf
-
-    def _prepare_cp_decomposer(self):
-        self.cp_decomposition = decompositions.KruskalTensor([self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C])
-        self.cp_decomposer = cp.CP_ALS(
-            self.rank,
-            max_its=np.inf, 
-            convergence_tol=0,
-            print_frequency=-1, 
-            non_negativity_constraints=self.non_negativity_constraints,
-            ridge_penalties=self.ridge_penalties,
-            orthonormality_constraints=self.orthonormality_constraints,
-            init='precomputed'
-        )
-        self.cp_decomposer._init_fit(X=self.projected_X, max_its=np.inf, initial_decomposition=self.cp_decomposition)
-
-    def _fit(self):
-
-        self._prepare_cp_decomposer()
-        for it in range(self.max_its - self.current_iteration):
-            if abs(self._rel_function_change) < self.convergence_tol:
-                break
-
-            self._update_parafac2_factors()
-            self._update_convergence()
-
-            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
-                print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
-                      f'improvement is {self._rel_function_change:g}')
-
-            self._after_fit_iteration()
-
-
-        if (
-            ((self.current_iteration+1) % self.checkpoint_frequency != 0) and 
-            (self.checkpoint_frequency > 0)
-        ):
-            self.store_checkpoint()
-
-    def _update_convergence(self):
-        loss = self.loss
-        self._rel_function_change = (self.prev_loss - loss)/self.prev_loss
-        self.prev_loss = loss
-
-    def _update_parafac2_factors(self):
-        #print('Before projection update') 
-        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
-        self._update_projection_matrices()
-
-        #print('Before ALS update') 
-        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
-
-        self.cp_decomposer.set_target(self.projected_X)
-        for _ in range(self.cp_updates_per_it):
-            self.cp_decomposer._update_als_factors()
-        self.decomposition.blueprint_B[...] *= self.cp_decomposer.weights
-        self.cp_decomposition.weights = self.cp_decomposition.weights*0 + 1
-        #print('After iteration') 
-        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
-        # from pdb import set_trace; set_trace()
-
-    @property
-    def loss(self):
-        loss = self.SSE
-        if self.ridge_penalties is not None:
-            factor_matrices = [self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C]
-            for factor, penalty in zip(factor_matrices, self.ridge_penalties):
-                loss += penalty*np.linalg.norm(factor)**2
-        return loss
+from abc import abstractmethod
+from pathlib import Path
+import warnings
+import numpy as np
+from .base_decomposer import BaseDecomposer
+from . import decompositions
+from . import cp
+from ..utils import normalize_factors, get_pca_loadings
+from .. import base
+
+
+__all__ = ['Parafac2_ALS']
+
+
+class BaseParafac2(BaseDecomposer):
+    r"""Base class for Parafac2 decomposer objects
+
+    Arguments:
+    ----------
+    rank: int
+        Number of components 
+    max_its: int (optional, default=1000)
+        Maximum number of iterations for fitting the model. 
+        Can be overwritten by the ``fit`` method.
+    convergence_tol: float (optional, default=1e-6)
+        Minimum relative function change between two consequetive
+        iterations for the model to continue fitting. Computed as
+        
+        .. math::
+
+            \frac{L(X_i) - L(X_{i+1})}{L(X_{i+1})},
+        
+        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
+        is the decomposition at iteration :math:`i`.
+    init: str (optional, default = 'random')
+        Initialisation scheme for the decomposer (case insensitive). Options:
+    
+          * Random: Initiate the decomposition as a random Parafac2 tensor
+          * SVD: Use the SVD to find the factor matrices
+          * CP: Run 20 CP iterations and use that decomposition as initial
+          Parafac2 tensor (QR on the evolving mode to split into projection
+          and blueprint matrices)
+          * from_checkpoint: Load the last iteration in the specified
+          checkpoint file (alternatively, just the path to the decomposition file)
+          * Precomputed: Use already existing Parafac2 tensor to initialise
+          the decomposition. 
+
+    logger: list(Logger) (optional, default=None)
+        List of loggers, each logger should implement a ``log`` method
+        that takes a decomposer as input and a ``write_to_hdf5_group``
+        method that stores the log in a hdf5 group. See 
+        ``tenkit.logging.BaseLogger`` for interface.
+    checkpoint_frequency: int (optional, default=None)
+        How often the decomposer should store the decomposition and
+        logs to disk. If None or negative, will only
+        checkpoint the last iteration. 
+    checkpoint_path: str or Path (optional, default=None)
+        Where to store the log HDF5 file. If None, then the checkpoints
+        and logs are not stored to disk.
+    print_frequency: int (optional, default=None)
+        How often convergence information should be printed in the terminal.
+        None and negative values leads to no printing.
+    """
+    DecompositionType = decompositions.Parafac2Tensor
+    def __init__(self, 
+        rank, 
+        max_its=1000, 
+        convergence_tol=1e-6, 
+        init='random',
+        loggers=None,
+        checkpoint_frequency=None,
+        checkpoint_path=None,
+        print_frequency=10,
+    ):
+        super().__init__(
+            max_its=max_its,
+            convergence_tol=convergence_tol,
+            loggers=loggers,
+            checkpoint_frequency=checkpoint_frequency,
+            checkpoint_path=checkpoint_path,
+            print_frequency=print_frequency,
+        )
+
+        self.rank = rank
+        self.init = init
+
+    def set_target(self, X):
+        if not isinstance(X, list):
+            self.target_tensor = X
+            X = X.transpose(2, 0, 1)
+        
+        self.X = X
+        self.X_shape = [len(X[0]), [Xk.shape[1] for Xk in X], len(X)]    # len(A), len(Bk), len(C)
+        self.X_norm = np.sqrt(sum(np.linalg.norm(Xk)**2 for Xk in X))
+        self.num_X_elements = sum([np.prod(s) for s in self.X_shape])
+
+    def init_random(self):
+        """Random initialisation of the factor matrices
+        """
+        self.decomposition = self.DecompositionType.random_init(self.X_shape, rank=self.rank)
+
+    def init_svd(self):
+        """SVD initalisation
+        """
+        # TODO: This does not work for irregular tensors
+        K = self.X_shape[2]
+        J = self.X_shape[1]
+        Y = np.zeros([J, J])
+
+        for k in range(K):
+            Y += self.X[k].T @ self.X[k]
+
+        A = get_pca_loadings(Y, self.rank)
+        blueprint_B = np.identity(self.rank)
+        C = np.ones((K, self.rank))
+
+        P = [np.eye(J, self.rank) for k in range(K)]
+        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
+
+        self._update_projection_matrices()
+    
+    def init_cp(self):
+        """CP initialisation. Input must be a tensor.
+        """
+        X = np.asarray(self.X)
+        cp_als = cp.CP_ALS(self.rank, 20)
+        cp_als.fit(X)
+        C, A, B = cp_als.factor_matrices
+        P, blueprint_B = np.linalg.qr(B)
+        P = [P for _ in range(len(self.X))]
+        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
+
+    def init_components(self, initial_decomposition=None):
+        if self.init.lower() == 'svd':
+            self.init_svd()
+        elif self.init.lower() == 'random':
+            self.init_random()
+        elif self.init.lower() == 'cp':
+            self.init_cp()
+        elif self.init.lower() == 'from_checkpoint':
+            self.load_checkpoint(initial_decomposition)
+        elif self.init.lower() == 'precomputed':
+            self._check_valid_components(initial_decomposition)
+            self.decomposition = initial_decomposition
+        elif Path(self.init).is_file():
+            self.load_checkpoint(self.init)
+        else:
+            # TODO: better message
+            raise ValueError('Init method must be either `random`, `svd`, `from_checkpoint` or `precomputed`.')
+
+    def _check_valid_components(self, decomposition):
+        for i, factor_matrix, factor_name in zip([0, 2], [decomposition.A, decomposition.C], ['A', 'C']):
+            if factor_matrix.shape[0] != self.X_shape[i]:
+                raise ValueError(
+                    f"The length of factor matrix {factor_name} ({factor_matrix.shape[0]}"
+                    f"is not the same as the length of X's dimension {i} ({self.X_shape[i]})"
+                )
+            if factor_matrix.shape[1] != self.rank:
+                raise ValueError(
+                    f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
+                )
+        
+        for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
+            if B.shape[0] != X_slice.shape[1]:
+                raise ValueError(
+                    f"The number of rows of factor matrix B_{k} ({B.shape[0]}"
+                    f"is not the same as the number of columns of X_{k} ({X_slice.shape[1]})"
+                )
+
+            if B.shape[1] != self.rank:
+                raise ValueError(
+                    f"The number of columns of B_{k} ({B.shape[1]}) does not agree with the models rank ({self.rank})"
+                )
+
+    @abstractmethod
+    def _fit(self):
+        pass
+
+    def fit(self, X, y=None, max_its=None, initial_decomposition=None):
+        """Fit a parafac2 model. Precomputed components must be specified if init method is 'precomputed'
+
+        Arguments:
+        ----------
+        X : np.ndarray
+            The tensor or list of tensor slices to fit a PARAFAC2 model to. 
+            The list indices (or first mode) correspond to the C-mode in
+            the following equation
+
+            .. math::
+
+                X_k = A diag(c_k) B_k^T
+            
+            This will be changed in a later version so that the first mode
+            is the evolving mode.
+        y : None
+            Ignored, included to follow sklearn standards.
+        max_its : int (optional)
+            If set, then this will override the class's max_its.
+        initial_decomposition : tenkit.decomposition.decompositions.Parafac2Tensor or str
+            The initial KruskalTensor (init=precomputed) to use or the path of the 
+            logfile to load (init=from_file).
+        """
+
+        self._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
+        self._fit()
+
+    def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
+        self.fit(X, y=y, max_its=max_its, initial_decomposition=initial_decomposition)
+        return self.decomposition
+
+    @property
+    def loss(self):
+        return self.SSE
+
+    def _fit(self):
+        return 1 - self.SSE/(self.X_norm**2)
+
+    @property
+    def SSE(self):
+        SSE = 0
+        for X_k, reconstructed_X_k, in zip(self.X, self.reconstructed_X):
+            SSE += np.sum((X_k - reconstructed_X_k)**2)
+        return SSE
+
+    @property
+    def MSE(self):
+        return self.SSE/self.decomposition.num_elements
+        
+    @property
+    def reconstructed_X(self):
+        return self.decomposition.construct_slices()
+    
+    @property
+    def projected_X(self):
+        I = self.decomposition.A.shape[0]
+        K = self.decomposition.C.shape[0]
+        projected_X = np.empty((I, self.rank, K))
+
+        for k, projection_matrix in enumerate(self.decomposition.projection_matrices):
+            projected_X[..., k] = self.X[k]@projection_matrix
+        return projected_X
+
+    # TODO: Change name of this function
+    def _update_projection_matrices(self):
+        K = self.X_shape[2]
+
+        for k in range(K):
+            A = self.decomposition.A
+            C = self.decomposition.C
+            blueprint_B = self.decomposition.blueprint_B
+
+            self.decomposition.projection_matrices[k][...] = base.orthogonal_solve(
+                (C[k]*A)@blueprint_B.T,
+                self.X[k]
+            ).T
+
+            # Should_keep = diag([1, 1, ..., 1, 0, 0, ..., 0]) -> the zeros correspond to small singular values
+            # Following Rasmus Bro's PARAFAC2 MATLAB script, which sets P_k = Q_k(Q_k'Q_k)^(-0.5) (line 524)
+            #      Where the power is done by truncating very small singular values (for numerical stability)
+
+
+class Parafac2_ALS(BaseParafac2):
+    r"""Decomposer for Parafac2 with ALS optimization
+
+    Arguments:
+    ----------
+    rank: int
+        Number of components 
+    max_its: int (optional, default=1000)
+        Maximum number of iterations for fitting the model. 
+        Can be overwritten by the ``fit`` method.
+    convergence_tol: float (optional, default=1e-6)
+        Minimum relative function change between two consequetive
+        iterations for the model to continue fitting. Computed as
+        
+        .. math::
+
+            \frac{L(X_i) - L(X_{i+1}) }{L(X_{i+1})},
+        
+        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
+        is the decomposition at iteration :math:`i`.
+    init: str (optional, default = 'random')
+        Initialisation scheme for the decomposer (case insensitive). Options:
+    
+          * Random: Initiate the decomposition as a random Parafac2 tensor
+          * SVD: Use the SVD to find the factor matrices
+          * CP: Run 20 CP iterations and use that decomposition as initial
+          Parafac2 tensor (QR on the evolving mode to split into projection
+          and blueprint matrices)
+          * from_checkpoint: Load the last iteration in the specified
+          checkpoint file (alternatively, just the path to the decomposition file)
+          * Precomputed: Use already existing Parafac2 tensor to initialise
+          the decomposition. 
+    logger: list(Logger) (optional, default=None)
+        List of loggers, each logger should implement a ``log`` method
+        that takes a decomposer as input and a ``write_to_hdf5_group``
+        method that stores the log in a hdf5 group. See 
+        ``tenkit.logging.BaseLogger`` for interface.
+    checkpoint_frequency: int (optional, default=None)
+        How often the decomposer should store the decomposition and
+        logs to disk. If None or negative, will only
+        checkpoint the last iteration. 
+    checkpoint_path: str or Path (optional, default=None)
+        Where to store the log HDF5 file. If None, then the checkpoints
+        and logs are not stored to disk.
+    print_frequency: int (optional, default=None)
+        How often convergence information should be printed in the terminal.
+        None and negative values leads to no printing.
+    cp_updates_per_it: int (optional, default=5)
+        Number of CP iterations to run between each projection matrix update.
+    non_negativity_constraints: list(bool) (optional, default=None)
+        If nth element in the list is True, the nth mode is constrained to be
+        non-negative. If None, no modes are constrained.
+        Note: The evolving mode cannot be constrained. 
+    ridge_penalties: list(float) (optional, default=None)
+        Regularisation parameters. The loss is regularised such that
+
+        .. math::
+
+            L_{reg} = L + \sum_i \lambda_i ||U_i||_F^2
+
+        Where :math:`L_{reg}` is the regularised loss, :math:`L` is the unregularised
+        loss, :math:`\lambda_i` is the ith element in ``ridge_penalites`` and :math:`U_i`
+        is the ith factor matrix (or blueprint factor matrix for the evolving mode). 
+        If None, no modes are regularised.
+    orthonormality_constraints: list(bool) (optional, default=None)
+        If nth element in the list is True, the nth mode is constrained to be
+        orthonormal. If None, no modes are constrained. Note: all modes should not be
+        orhtonormal and the evolving mode cannot be constrained. 
+    """
+    def __init__(
+        self,
+        rank,
+        max_its=1000, 
+        convergence_tol=1e-6, 
+        init='random',
+        loggers=None,
+        checkpoint_frequency=None,
+        checkpoint_path=None,
+        print_frequency=10,
+        cp_updates_per_it=5,
+        non_negativity_constraints=None,
+        ridge_penalties=None,
+        orthonormality_constraints=None,
+    ):
+        super().__init__(
+            rank,
+            max_its=max_its,
+            convergence_tol=convergence_tol,
+            init=init,
+            loggers=loggers,
+            checkpoint_frequency=checkpoint_frequency,
+            checkpoint_path=checkpoint_path,
+            print_frequency=print_frequency,
+        )
+        self.non_negativity_constraints = non_negativity_constraints
+        if self.non_negativity_constraints is None:
+            self.non_negativity_constraints = [False, False, False]
+        if self.non_negativity_constraints[1]:
+            warnings.warn(
+                "Non negativity constraints on the evolving (second) mode will only"
+                " be imposed on the blueprint matrix, not the evolving components.",
+                RuntimeWarning
+            )
+
+        self.cp_updates_per_it = cp_updates_per_it
+        self.ridge_penalties = ridge_penalties
+        self.orthonormality_constraints = orthonormality_constraints
+
+    def _init_fit(self, X, max_its, initial_decomposition):
+        super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
+        self.prev_loss = self.loss
+        self._rel_function_change = np.inf
+
+    def _prepare_cp_decomposer(self):
+        self.cp_decomposition = decompositions.KruskalTensor([self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C])
+        self.cp_decomposer = cp.CP_ALS(
+            self.rank,
+            max_its=np.inf, 
+            convergence_tol=0,
+            print_frequency=-1, 
+            non_negativity_constraints=self.non_negativity_constraints,
+            ridge_penalties=self.ridge_penalties,
+            orthonormality_constraints=self.orthonormality_constraints,
+            init='precomputed'
+        )
+        self.cp_decomposer._init_fit(X=self.projected_X, max_its=np.inf, initial_decomposition=self.cp_decomposition)
+
+    def _fit(self):
+
+        self._prepare_cp_decomposer()
+        for it in range(self.max_its - self.current_iteration):
+            if abs(self._rel_function_change) < self.convergence_tol:
+                break
+
+            self._update_parafac2_factors()
+            self._update_convergence()
+
+            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
+                print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
+                      f'improvement is {self._rel_function_change:g}')
+
+            self._after_fit_iteration()
+
+
+        if (
+            ((self.current_iteration+1) % self.checkpoint_frequency != 0) and 
+            (self.checkpoint_frequency > 0)
+        ):
+            self.store_checkpoint()
+
+    def _update_convergence(self):
+        loss = self.loss
+        self._rel_function_change = (self.prev_loss - loss)/self.prev_loss
+        self.prev_loss = loss
+
+    def _update_parafac2_factors(self):
+        #print('Before projection update') 
+        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
+        self._update_projection_matrices()
+
+        #print('Before ALS update') 
+        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
+
+        self.cp_decomposer.set_target(self.projected_X)
+        for _ in range(self.cp_updates_per_it):
+            self.cp_decomposer._update_als_factors()
+        self.decomposition.blueprint_B[...] *= self.cp_decomposer.weights
+        self.cp_decomposition.weights = self.cp_decomposition.weights*0 + 1
+        #print('After iteration') 
+        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
+        # from pdb import set_trace; set_trace()
+
+    @property
+    def loss(self):
+        loss = self.SSE
+        if self.ridge_penalties is not None:
+            factor_matrices = [self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C]
+            for factor, penalty in zip(factor_matrices, self.ridge_penalties):
+                loss += penalty*np.linalg.norm(factor)**2
+        return loss
-- 
2.43.0


From a71b31eedafe6fca2861e1f9896e352f0b606e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:51 +0000
Subject: [PATCH 03/36] fix: count all elements of the slices, not only their
 columns

The mean squared error of PARAFAC2 models was too large by a factor of the number of rows.
---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 745bf64..acadad0 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -322,7 +322,7 @@ class EvolvingTensor(BaseDecomposedTensor):
         self.warning = warning
         self.all_same_size = self._check_all_same_size(B)
         self.slice_shapes = [(self.A.shape[0], B_k.shape[0]) for B_k in self.B]
-        self.num_elements = sum((shape[1] for shape in self.slice_shapes))
+        self.num_elements = sum(shape[0]*shape[1] for shape in self.slice_shapes)
 
     @classmethod
     def from_kruskaltensor(cls, ktensor, allow_same_class=False):
@@ -599,7 +599,7 @@ class Parafac2Tensor(EvolvingTensor):
 
         self.all_same_size = self._check_all_same_size(projection_matrices)
         self.slice_shapes = [(self.A.shape[0], B_k.shape[0]) for B_k in self.B] 
-        self.num_elements = sum(shape[1] for shape in self.slice_shapes)
+        self.num_elements = sum(shape[0]*shape[1] for shape in self.slice_shapes)
 
         self.warning = warning
 
-- 
2.43.0


From 0a65680d19dc5d9510fee348fa70fafba51139a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:51 +0000
Subject: [PATCH 04/36] fix: keep the weights when converting a Kruskal tensor
 to an evolving tensor

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index acadad0..3fe264b 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -334,7 +334,7 @@ class EvolvingTensor(BaseDecomposedTensor):
 
         if len(ktensor.factor_matrices) != 3:
             raise ValueError('Kruskal tensor must be third order to be converted into an evolving tensor')
-        A = ktensor.factor_matrices[0]
+        A = ktensor.factor_matrices[0]*ktensor.weights
         B = ktensor.factor_matrices[1]
         C = ktensor.factor_matrices[2]
 
-- 
2.43.0


From 479559bd11b21b056a0ca1a57822401897c57db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:51 +0000
Subject: [PATCH 05/36] fix: call functions that exist in the separate mode
 factor match scores

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 3fe264b..a9276d2 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -217,7 +217,7 @@ class KruskalTensor(BaseDecomposedTensor):
                                           fms_reduction=fms_reduction)
     
     def seperate_mode_factor_match_score(self, decomposition, fms_reduction='min'):
-        return metrics.seperate_mode_factor_match_score(self.factor_matrices,
+        return metrics.separate_mode_factor_match_score(self.factor_matrices,
                                                         decomposition.factor_matrices, 
                                                         fms_reduction=fms_reduction)
     def get_sign_scores(self, X):
@@ -471,7 +471,7 @@ class EvolvingTensor(BaseDecomposedTensor):
 
     def separate_mode_factor_match_score(self, decomposition, fms_reduction='min'):
         if not isinstance(decomposition, EvolvingTensor):
-            decomposition = decomposition.to_evolving_tensor()
+            decomposition = EvolvingTensor.from_kruskaltensor(decomposition)
         return metrics.separate_mode_factor_match_score([self.A, self.B_unfolded, self.C],
                                                       [decomposition.A, decomposition.B_unfolded, decomposition.C], 
                                                        fms_reduction=fms_reduction)
-- 
2.43.0


From 9df0dbd4316ba8a17361870ede96166cfaf2be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:51 +0000
Subject: [PATCH 06/36] fix: factor match score of PARAFAC2 tensors with slices
 of different sizes

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index a9276d2..00468fe 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -687,8 +687,8 @@ class Parafac2Tensor(EvolvingTensor):
     def factor_match_score(self, decomposition, weight_penalty=True, fms_reduction='min'):
         assert decomposition.rank == self.rank
 
-        factors1 = [self.A, np.array(self.B).reshape(-1, self.rank), self.C]
-        factors2 = [decomposition.A, np.array(decomposition.B).reshape(-1, self.rank), decomposition.C]
+        factors1 = [self.A, self.B_unfolded, self.C]
+        factors2 = [decomposition.A, decomposition.B_unfolded, decomposition.C]
 
         return metrics.factor_match_score(factors1, 
                                           factors2, 
-- 
2.43.0


From 9a51e099e0f3bf719f257a135b70fb100428552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:51 +0000
Subject: [PATCH 07/36] fix: single component extraction of PARAFAC2 tensors
 with slices of different sizes

---
 src/tenkit/decomposition/decompositions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 00468fe..9957651 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -697,12 +697,13 @@ class Parafac2Tensor(EvolvingTensor):
 
     def get_single_component_decomposition(self, component):
         A = self.A[:, component, np.newaxis]
-        B = self.B[:, ..., component, np.newaxis]
+        B = [B_k[:, component, np.newaxis] for B_k in self.B]
         C = self.C[:, component, np.newaxis]
 
         single_component_decomposition = EvolvingTensor(
             A = A,
             B = B,
             C = C,
+            warning = self.warning,
         )
         return single_component_decomposition
-- 
2.43.0


From 8de0d1fcdf6d474df6c2a333aed5952b89b8c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:06 +0000
Subject: [PATCH 08/36] fix: least squares solves of rank deficient systems

---
 src/tenkit/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 4d63dc8..64ebebe 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -8,7 +8,10 @@ def rightsolve(A, B):
     """Solve the equation X*A = B wrt X.
     """
     U, S, Vh = np.linalg.svd(A, full_matrices=False)
-    S[S != 0] = 1/S[S != 0]
+    # Treat singular values that are zero up to rounding errors as zero
+    is_nonzero = S > max(A.shape)*np.finfo(S.dtype).eps*S[0]
+    S[is_nonzero] = 1/S[is_nonzero]
+    S[~is_nonzero] = 0
 
     return B @ (Vh.T * S @ U.T)
 
-- 
2.43.0


From 62ff4afcf5c8439f4cd1b95f7ed3a2d5024ec97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:06 +0000
Subject: [PATCH 09/36] fix: non-negative solves with a one dimensional right
 hand side

---
 src/tenkit/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 64ebebe..c64dc2b 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -21,7 +21,7 @@ def non_negative_rightsolve(A, B):
     """
     # Discussion tracking in Enron Email Using PARAFAC has non negative updates
     if len(B.shape) == 1:
-        B = B[np.newaxis, B]
+        B = B[np.newaxis, :]
 
     x = np.zeros((B.shape[0], A.shape[0]))
     for i, b_i in enumerate(B):
-- 
2.43.0


From 78779f2b7224e33070fabf5bc04f67e006236cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:06 +0000
Subject: [PATCH 10/36] fix: add the ktensor function that the data generators
 use

---
 src/tenkit/base.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index c64dc2b..16a3668 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -145,6 +145,19 @@ def kron_binary(A, B):
     return kprod.reshape(n*p, m*q)
 
 
+def ktensor(*factors):
+    """Construct the tensor given by a list of factor matrices.
+
+    Parameters
+    ----------
+    *factors : np.ndarray list
+        List of factor matrices. The matrices have to all have
+        the same number of columns.
+    """
+    shape = [factor.shape[0] for factor in factors]
+    return fold(factors[0] @ khatri_rao(*factors[1:]).T, 0, shape)
+
+
 def matrix_khatri_rao_product(X, factors, mode):
     """Compute the matricised tensor times Khatri Rao product along given mode.
 
-- 
2.43.0


From dfd8022293b74441d787df2f6ece7d9c1bbb4cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:06 +0000
Subject: [PATCH 11/36] fix: visit checkpoints in iteration order, also past
 iteration 99999

---
 src/tenkit/utils.py | 446 ++++++++++++++++++++++----------------------
 1 file changed, 223 insertions(+), 223 deletions(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index d36b61f..27ee331 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -1,224 +1,224 @@
-import numpy as np
-from copy import deepcopy
-from . import base
-
-
-def flip_factors(factor_matrices):
-    factor_matrices = deepcopy(factor_matrices)
-    signs = []
-    for i, factor in enumerate(factor_matrices):
-        sign = np.sign(np.mean(np.sign(factor), axis=0))
-
-        # Resolve zero-signs so they are equal to sign of first nonzero element
-        for k, s in enumerate(sign):
-            if s == 0:
-                sign[k] = _find_first_nonzero_sign(factor[:, k])
-
-        factor_matrices[i] *= sign
-        signs.append(sign)
-    return factor_matrices, signs
-
-
-def get_pca_loadings(Y, rank):
-    """Returns the pca loadings of the Y matrix.
-    """
-    U, S, Vh = np.linalg.svd(Y)
-    A = (Vh.T @ np.diag(S))[:, :rank]
-    return A
-
-
-
-
-def create_random_factors(sizes, rank):
-    factors = [np.random.randn(size, rank) for size in sizes]
-    factors, norms = normalize_factors(factors)
-    return factors, norms
-
-
-def create_data(sizes, rank, noise_factor=0):
-    factors, norms = create_random_factors(sizes=sizes, rank=rank)
-    tensor = base.ktensor(*tuple(factors))
-
-    noise = np.random.randn(*sizes)
-    noise /= np.linalg.norm(noise)
-    noise *= np.linalg.norm(tensor)
-
-    tensor += noise_factor * noise
-    return tensor, factors, norms, noise
-
-
-def create_random_uniform_factors(sizes, rank):
-    factors = [np.random.uniform(size=(size, rank)) for size in sizes]
-    factors, norms = normalize_factors(factors)
-    return factors, norms
-
-
-def create_non_negative_data(sizes, rank, noise_factor=0):
-    factors, norms = create_random_uniform_factors(sizes=sizes, rank=rank)
-    tensor = base.ktensor(*tuple(factors))
-
-    noise = np.random.randn(*sizes)
-    noise /= np.linalg.norm(noise)
-    noise *= np.linalg.norm(tensor)
-
-    tensor += noise_factor * noise
-    return tensor, factors, norms, noise
-
-
-def permute_factors(permutation, factors):
-    return [factor[:, permutation] for factor in factors]
-
-
-def permute_factors_and_weights(permutation, factors, weights):
-    permuted_factors = [factor[:, permutation] for factor in factors]
-    permuted_weights = weights[list(permutation)]
-    return permuted_factors, permuted_weights
-
-
-def normalize_factor(factor, eps=1e-15):
-    """Normalizes the columns of a factor matrix. 
-    
-    Parameters:
-    -----------
-    factor: np.ndarray
-        Factor matrix to normalize.
-    eps: float
-        Epsilon used to prevent division by zero.
-
-    Returns:
-    --------
-    np.ndarray:
-        Matrix where the columns are normalized to length one.
-    np.ndarray:
-        Norms of the columns before normalization.
-    """
-    norms = np.linalg.norm(factor, axis=0, keepdims=True)
-    return factor / (norms + eps), norms
-
-
-def normalize_factors(factors):
-    """Normalizes the columns of each element in list of factors
-    
-    Parameters:
-    -----------
-    factor: list of np.ndarray
-        List containing factor matrices to normalize.
-
-    Returns:
-    --------
-    list of np.ndarray:
-        List containing matrices where the columns are normalized 
-        to length one.
-    list of np.ndarray:
-        List containing the norms of the columns from before 
-        normalization.
-    """
-    normalized_factors = []
-    norms = []
-
-    for factor in factors:
-        normalized_factor, norm = normalize_factor(factor)
-        normalized_factors.append(normalized_factor)
-        norms.append(norm)
-
-    return normalized_factors, norms
-
-
-def _find_first_nonzero_sign(factor):
-    """Returns the sign of the first nonzero element of `factor`
-    """
-    sign = 0
-    for el in factor:
-        if sign != 0:
-            break
-        sign = np.sign(el)
-
-    return sign
-
-
-def prepare_for_comparison(factors):
-    """Normalize factors and flip the signs.
-
-    This normalization makes it easier to compare the results.
-    TODO: more details.
-    """
-    normalized_factors, norms = normalize_factors(factors)
-    signs = []
-    for i, factor in enumerate(normalized_factors):
-        sign = np.sign(np.mean(np.sign(factor), axis=0))
-
-        # Resolve zero-signs so they are equal to sign of first nonzero element
-        for k, s in enumerate(sign):
-            if s == 0:
-                sign[k] = _find_first_nonzero_sign(factor[:, k])
-
-        normalized_factors[i] *= sign
-        signs.append(sign)
-    return normalized_factors, signs, norms
-
-
-def get_signs(factor_matrix, X):
-    """Find the correct signs of the factor matrix.
-    If data matrix is not passed, then the sign is set so the factor mean is positive.
-    If the data matrix is passed, then the sign is set so the factors are positively
-    correlated with the data matrix.
-
-    Arguments
-    ---------
-    factor_matrix : np.ndarray
-        Factor matrix with unknown sign
-    X : np.ndarray
-        Data matrix
-
-    Returns
-    -------
-    sign : int
-    sign_weight : float
-    """
-    if X is None:
-        sign_weight = factor_matrix.sum(axis=0)
-        sign_weight[sign_weight == 0] = 1
-        return np.sign(sign_weight), sign_weight
-
-    X_described_by_factors = np.linalg.lstsq(factor_matrix, X)[0]
-    sign_weight = np.sum(
-        np.sign(X_described_by_factors) * X_described_by_factors**2,
-        axis=1
-    )
-
-    return np.sign(sign_weight), sign_weight
-    
-def signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor, data_driven=True):
-    fixed_evolving_factor = evolving_factor.copy()
-    fixed_evolve_over_factor = evolve_over_factor.copy()
-    for k in range(len(evolving_factor)):
-        signs = get_signs(data_tensor[k], evolving_factor[k], data_driven=data_driven)[0]
-        
-        fixed_evolving_factor[k] *= signs
-        fixed_evolve_over_factor[k] *= signs
-    
-    return fixed_evolving_factor, fixed_evolve_over_factor
-
-def signfix_normal_factors(data_tensor, fixing_factors, flipping_factors, data_driven=True):
-    unfolded_data_tensor = data_tensor.reshape(data_tensor.shape[0], -1)
-    signs = get_signs(unfolded_data_tensor, fixing_factors, data_driven)[0]
-    
-    return fixing_factors*signs[np.newaxis], flipping_factors*signs[np.newaxis]
-
-def fix_signs_evolving_tensor(evolving_tensor, data_tensor):
-    evolving_factor = evolving_tensor.B
-    evolve_over_factor = evolving_tensor.C
-
-    fixed_evolving_factor, fixed_evolve_over_factor = signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor)
-    
-    fixed_evolving_tensor = deepcopy(evolving_tensor)
-
-    fixed_evolving_tensor._B = fixed_evolving_factor
-    fixed_evolving_tensor._C = fixed_evolve_over_factor
-    return fixed_evolving_tensor
-
-def iter_checkpoints(h5_checkpoint_file):
-    for groupname in sorted(h5_checkpoint_file):
-        if groupname.startswith('checkpoint'):
-            yield h5_checkpoint_file[groupname]
+import numpy as np
+from copy import deepcopy
+from . import base
+
+
+def flip_factors(factor_matrices):
+    factor_matrices = deepcopy(factor_matrices)
+    signs = []
+    for i, factor in enumerate(factor_matrices):
+        sign = np.sign(np.mean(np.sign(factor), axis=0))
+
+        # Resolve zero-signs so they are equal to sign of first nonzero element
+        for k, s in enumerate(sign):
+            if s == 0:
+                sign[k] = _find_first_nonzero_sign(factor[:, k])
+
+        factor_matrices[i] *= sign
+        signs.append(sign)
+    return factor_matrices, signs
+
+
+def get_pca_loadings(Y, rank):
+    """Returns the pca loadings of the Y matrix.
+    """
+    U, S, Vh = np.linalg.svd(Y)
+    A = (Vh.T @ np.diag(S))[:, :rank]
+    return A
+
+
+
+
+def create_random_factors(sizes, rank):
+    factors = [np.random.randn(size, rank) for size in sizes]
+    factors, norms = normalize_factors(factors)
+    return factors, norms
+
+
+def create_data(sizes, rank, noise_factor=0):
+    factors, norms = create_random_factors(sizes=sizes, rank=rank)
+    tensor = base.ktensor(*tuple(factors))
+
+    noise = np.random.randn(*sizes)
+    noise /= np.linalg.norm(noise)
+    noise *= np.linalg.norm(tensor)
+
+    tensor += noise_factor * noise
+    return tensor, factors, norms, noise
+
+
+def create_random_uniform_factors(sizes, rank):
+    factors = [np.random.uniform(size=(size, rank)) for size in sizes]
+    factors, norms = normalize_factors(factors)
+    return factors, norms
+
+
+def create_non_negative_data(sizes, rank, noise_factor=0):
+    factors, norms = create_random_uniform_factors(sizes=sizes, rank=rank)
+    tensor = base.ktensor(*tuple(factors))
+
+    noise = np.random.randn(*sizes)
+    noise /= np.linalg.norm(noise)
+    noise *= np.linalg.norm(tensor)
+
+    tensor += noise_factor * noise
+    return tensor, factors, norms, noise
+
+
+def permute_factors(permutation, factors):
+    return [factor[:, permutation] for factor in factors]
+
+
+def permute_factors_and_weights(permutation, factors, weights):
+    permuted_factors = [factor[:, permutation] for factor in factors]
+    permuted_weights = weights[list(permutation)]
+    return permuted_factors, permuted_weights
+
+
+def normalize_factor(factor, eps=1e-15):
+    """Normalizes the columns of a factor matrix. 
+    
+    Parameters:
+    -----------
+    factor: np.ndarray
+        Factor matrix to normalize.
+    eps: float
+        Epsilon used to prevent division by zero.
+
+    Returns:
+    --------
+    np.ndarray:
+        Matrix where the columns are normalized to length one.
+    np.ndarray:
+        Norms of the columns before normalization.
+    """
+    norms = np.linalg.norm(factor, axis=0, keepdims=True)
+    return factor / (norms + eps), norms
+
+
+def normalize_factors(factors):
+    """Normalizes the columns of each element in list of factors
+    
+    Parameters:
+    -----------
+    factor: list of np.ndarray
+        List containing factor matrices to normalize.
+
+    Returns:
+    --------
+    list of np.ndarray:
+        List containing matrices where the columns are normalized 
+        to length one.
+    list of np.ndarray:
+        List containing the norms of the columns from before 
+        normalization.
+    """
+    normalized_factors = []
+    norms = []
+
+    for factor in factors:
+        normalized_factor, norm = normalize_factor(factor)
+        normalized_factors.append(normalized_factor)
+        norms.append(norm)
+
+    return normalized_factors, norms
+
+
+def _find_first_nonzero_sign(factor):
+    """Returns the sign of the first nonzero element of `factor`
+    """
+    sign = 0
+    for el in factor:
+        if sign != 0:
+            break
+        sign = np.sign(el)
+
+    return sign
+
+
+def prepare_for_comparison(factors):
+    """Normalize factors and flip the signs.
+
+    This normalization makes it easier to compare the results.
+    TODO: more details.
+    """
+    normalized_factors, norms = normalize_factors(factors)
+    signs = []
+    for i, factor in enumerate(normalized_factors):
+        sign = np.sign(np.mean(np.sign(factor), axis=0))
+
+        # Resolve zero-signs so they are equal to sign of first nonzero element
+        for k, s in enumerate(sign):
+            if s == 0:
+                sign[k] = _find_first_nonzero_sign(factor[:, k])
+
+        normalized_factors[i] *= sign
+        signs.append(sign)
+    return normalized_factors, signs, norms
+
+
+def get_signs(factor_matrix, X):
+    """Find the correct signs of the factor matrix.
+    If data matrix is not passed, then the sign is set so the factor mean is positive.
+    If the data matrix is passed, then the sign is set so the factors are positively
+    correlated with the data matrix.
+
+    Arguments
+    ---------
+    factor_matrix : np.ndarray
+        Factor matrix with unknown sign
+    X : np.ndarray
+        Data matrix
+
+    Returns
+    -------
+    sign : int
+    sign_weight : float
+    """
+    if X is None:
+        sign_weight = factor_matrix.sum(axis=0)
+        sign_weight[sign_weight == 0] = 1
+        return np.sign(sign_weight), sign_weight
+
+    X_described_by_factors = np.linalg.lstsq(factor_matrix, X)[0]
+    sign_weight = np.sum(
+        np.sign(X_described_by_factors) * X_described_by_factors**2,
+        axis=1
+    )
+
+    return np.sign(sign_weight), sign_weight
+    
+def signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor, data_driven=True):
+    fixed_evolving_factor = evolving_factor.copy()
+    fixed_evolve_over_factor = evolve_over_factor.copy()
+    for k in range(len(evolving_factor)):
+        signs = get_signs(data_tensor[k], evolving_factor[k], data_driven=data_driven)[0]
+        
+        fixed_evolving_factor[k] *= signs
+        fixed_evolve_over_factor[k] *= signs
+    
+    return fixed_evolving_factor, fixed_evolve_over_factor
+
+def signfix_normal_factors(data_tensor, fixing_factors, flipping_factors, data_driven=True):
+    unfolded_data_tensor = data_tensor.reshape(data_tensor.shape[0], -1)
+    signs = get_signs(unfolded_data_tensor, fixing_factors, data_driven)[0]
+    
+    return fixing_factors*signs[np.newaxis], flipping_factors*signs[np.newaxis]
+
+def fix_signs_evolving_tensor(evolving_tensor, data_tensor):
+    evolving_factor = evolving_tensor.B
+    evolve_over_factor = evolving_tensor.C
+
+    fixed_evolving_factor, fixed_evolve_over_factor = signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor)
+    
+    fixed_evolving_tensor = deepcopy(evolving_tensor)
+
+    fixed_evolving_tensor._B = fixed_evolving_factor
+    fixed_evolving_tensor._C = fixed_evolve_over_factor
+    return fixed_evolving_tensor
+
+def iter_checkpoints(h5_checkpoint_file):
+    groupnames = [name for name in h5_checkpoint_file if name.startswith('checkpoint')]
+    for groupname in sorted(groupnames, key=lambda name: int(name.split('_')[-1])):
+        yield h5_checkpoint_file[groupname]
     
\ No newline at end of file
-- 
2.43.0


From 7d64a875cb92ce97e83de966a8772a1195731040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:06 +0000
Subject: [PATCH 12/36] fix: never propose zero as the sign of a component

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 src/tenkit/utils.py                        | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 9957651..24d7836 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -237,10 +237,10 @@ class KruskalTensor(BaseDecomposedTensor):
             ]
 
             for factor_num, factor_sign_score in enumerate(single_rank_sign_scores):
-                signs[factor_num][rank] = np.sign(factor_sign_score)
+                signs[factor_num][rank] = -1 if factor_sign_score < 0 else 1
 
             # Find the mode that should not be flipped
-            single_rank_signs = np.sign(single_rank_sign_scores)
+            single_rank_signs = [factor_signs[rank] for factor_signs in signs]
             if np.prod(single_rank_signs) == -1:
                 wrongly_flipped = np.argmin(np.abs(single_rank_sign_scores))
                 signs[wrongly_flipped][rank] *= -1
diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index 27ee331..38f3d89 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -186,7 +186,9 @@ def get_signs(factor_matrix, X):
         axis=1
     )
 
-    return np.sign(sign_weight), sign_weight
+    sign = np.sign(sign_weight)
+    sign[sign == 0] = 1
+    return sign, sign_weight
     
 def signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor, data_driven=True):
     fixed_evolving_factor = evolving_factor.copy()
-- 
2.43.0


From 93e6398d29145cc1db61e6a64c1b594d6716be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:06 +0000
Subject: [PATCH 13/36] fix: PCA loadings of matrices that are not square

---
 src/tenkit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index 38f3d89..b89d214 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -22,7 +22,7 @@ def flip_factors(factor_matrices):
 def get_pca_loadings(Y, rank):
     """Returns the pca loadings of the Y matrix.
     """
-    U, S, Vh = np.linalg.svd(Y)
+    U, S, Vh = np.linalg.svd(Y, full_matrices=False)
     A = (Vh.T @ np.diag(S))[:, :rank]
     return A
 
-- 
2.43.0


From bd39fe560ef8ef9c7a2640e9bb7d7130aec65884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:06 +0000
Subject: [PATCH 14/36] fix: take the weights of Kruskal tensors into account
 in FMS and core consistency

---
 src/tenkit/decomposition/decompositions.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 24d7836..31b7984 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -138,6 +138,11 @@ class KruskalTensor(BaseDecomposedTensor):
 
         return base.fold(tensor, 0, shape=shape)
 
+    @property
+    def _weighted_factor_matrices(self):
+        """Factor matrices of the same tensor with unit weights."""
+        return [self.factor_matrices[0]*self.weights, *self.factor_matrices[1:]]
+
     def reset_weights(self):
         self.weights *= 0
         self.weights += 1
@@ -211,8 +216,13 @@ class KruskalTensor(BaseDecomposedTensor):
     def factor_match_score(self, decomposition, weight_penalty=True, fms_reduction='min'):
         assert decomposition.rank == self.rank
 
-        return metrics.factor_match_score(self.factor_matrices, 
-                                          decomposition.factor_matrices, 
+        factors1, factors2 = self.factor_matrices, decomposition.factor_matrices
+        if weight_penalty:
+            factors1 = self._weighted_factor_matrices
+            factors2 = decomposition._weighted_factor_matrices
+
+        return metrics.factor_match_score(factors1, 
+                                          factors2, 
                                           weight_penalty=weight_penalty, 
                                           fms_reduction=fms_reduction)
     
@@ -273,7 +283,7 @@ class KruskalTensor(BaseDecomposedTensor):
     def core_consistency(self, X, normalized=False):
         if len(self.factor_matrices) != 3:
             raise ValueError('Core consistency is only implemented for third order tensors')
-        return metrics.core_consistency(X, *self.factor_matrices, normalized=normalized)
+        return metrics.core_consistency(X, *self._weighted_factor_matrices, normalized=normalized)
         
 
 class EvolvingTensor(BaseDecomposedTensor):
-- 
2.43.0


From caadf61726336248f9155498c7d5cf03278aa93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:31 +0000
Subject: [PATCH 15/36] fix: solve the constrained and penalised least squares
 problems in ALS

The solvers minimise ||XA - B||, but were given the normal equations, so
the non-negative and ridge updates were not minimisers of the loss.
---
 src/tenkit/decomposition/cmtf.py |  6 ++++++
 src/tenkit/decomposition/cp.py   | 20 +++++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 704f0c3..21e90fc 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -170,6 +170,12 @@ class CMTF_ALS(CP_ALS):
             return super()._get_als_rhs(mode)
 
 
+    def _get_least_squares_system(self, mode, lhs, rhs):
+        if mode in self.mode_to_cm_idx:
+            # Not normal equations
+            return lhs, rhs
+        return super()._get_least_squares_system(mode, lhs, rhs)
+
     def _update_uncoupled_matrix_factors(self):
         for mode, cm_idx in self.mode_to_cm_idx.items():
             cm_idx = self.mode_to_cm_idx[mode][0]
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 4154beb..bf97b14 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -392,9 +392,27 @@ class CP_ALS(BaseCP):
         self._last_updated_mode = mode
         self._matrix_khatri_rao_product_cache = rhs
 
-        new_factor = rightsolve(lhs, rhs)
+        new_factor = rightsolve(*self._get_least_squares_system(mode, lhs, rhs))
         self.factor_matrices[mode][...] = new_factor
 
+    def _get_least_squares_system(self, mode, lhs, rhs):
+        """Find A and B such that the factor is updated by minimising ``||XA - B||``.
+
+        The ALS left and right hand sides are those of the normal equations, which
+        have the same solution only if there are no constraints and no penalty.
+        """
+        # The columns of the other factors can have very different lengths
+        scale = np.sqrt(np.diag(lhs))
+        scale[scale == 0] = 1
+        eigenvalues, eigenvectors = np.linalg.eigh(lhs/np.outer(scale, scale))
+        is_nonzero = eigenvalues > len(lhs)*np.finfo(float).eps*eigenvalues[-1]
+        singular_values = np.sqrt(np.where(is_nonzero, eigenvalues, 0))
+        inverse_singular_values = np.zeros_like(singular_values)
+        inverse_singular_values[is_nonzero] = 1/singular_values[is_nonzero]
+        A = scale[:, np.newaxis]*eigenvectors*singular_values
+        B = (rhs/scale)@eigenvectors*inverse_singular_values
+        return A, B
+
     def _update_als_factors(self):
         """Updates factors with alternating least squares."""
         num_modes = len(self.X.shape) # TODO: Should this be cashed?
-- 
2.43.0


From 8591bac98c61357ea32dbc0310f089ffc83942bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:09 +0000
Subject: [PATCH 16/36] fix: constraints when refitting, for PARAFAC2 and for
 coupled fits

Default constraints were stored with the length of the first tensor,
orthonormal starting points were not shared with the PARAFAC2 model and
non-negative coupled fits called a function that does not exist.
---
 src/tenkit/decomposition/cmtf.py | 10 ++--------
 src/tenkit/decomposition/cp.py   | 26 +++++++++++++++-----------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 21e90fc..b9a992e 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -146,10 +146,7 @@ class CMTF_ALS(CP_ALS):
     def _update_als_factors(self):
         num_modes = len(self.X.shape) # TODO: Should this be cashed?
         for mode in range(num_modes):
-            if self.non_negativity_constraints[mode]:
-                self._update_als_factor_non_negative(mode) 
-            else:
-                self._update_als_factor(mode)
+            self._update_als_factor(mode)
         self._update_uncoupled_matrix_factors()
 
     def _get_als_lhs(self, mode):
@@ -183,10 +180,7 @@ class CMTF_ALS(CP_ALS):
             lhs = self.factor_matrices[mode].T
             rhs = self.coupled_matrices[cm_idx].T
 
-            if self.non_negativity_constraints is None:
-                self.uncoupled_factor_matrices[cm_idx][...] = base.rightsolve(lhs, rhs)
-
-            if self.non_negativity_constraints[mode]:
+            if self._is_non_negative(mode):
                 new_fm = base.non_negative_rightsolve(lhs, rhs)
                 self.uncoupled_factor_matrices[cm_idx][...] = new_fm
             else:
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index bf97b14..9b7fa73 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -336,14 +336,12 @@ class CP_ALS(BaseCP):
     def _init_fit(self, X, max_its, initial_decomposition):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
         self.decomposition.reset_weights()
-        if self.non_negativity_constraints is None:
-            self.non_negativity_constraints = [False]*len(self.factor_matrices)
-        if self.orthonormality_constraints is None:
-            self.orthonormality_constraints = [False]*len(self.factor_matrices)
-        for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
-            fm = self.decomposition.factor_matrices[mode]
-            if orthogonality:
-                self.decomposition.factor_matrices[mode] = np.linalg.qr(fm)[0]
+        for mode, fm in enumerate(self.factor_matrices):
+            if self._is_orthonormal(mode):
+                q, r = np.linalg.qr(fm)
+                # In place, the factor matrix can be a part of another decomposition.
+                # The signs are such that orthonormal matrices are left as they are.
+                fm[...] = q*np.where(np.diag(r) < 0, -1, 1)
 
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
@@ -351,6 +349,12 @@ class CP_ALS(BaseCP):
         self._matrix_khatri_rao_product_cache = None
         # self._matrix_khatri_rao_product_cache = [np.empty_like(factor) for factor in self.factor_matrices]
 
+    def _is_non_negative(self, mode):
+        return self.non_negativity_constraints is not None and self.non_negativity_constraints[mode]
+
+    def _is_orthonormal(self, mode):
+        return self.orthonormality_constraints is not None and self.orthonormality_constraints[mode]
+
     def _get_als_lhs(self, skip_mode):
         """Compute left hand side of least squares problem."""
         V = np.ones((self.rank, self.rank))
@@ -365,11 +369,11 @@ class CP_ALS(BaseCP):
 
     def _get_rightsolve(self, mode):
         rightsolve = base.rightsolve
-        if self.non_negativity_constraints[mode]:
+        if self._is_non_negative(mode):
             rightsolve = base.non_negative_rightsolve
         
-        if self.orthonormality_constraints[mode]:
-            if self.non_negativity_constraints[mode]:
+        if self._is_orthonormal(mode):
+            if self._is_non_negative(mode):
                 raise ValueError('Cannot perform nonnegative orthogonal solve')
 
             rightsolve = base.orthogonal_rightsolve
-- 
2.43.0


From 46101b9b0466b4c1860f968031e80bc213c4ba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:09 +0000
Subject: [PATCH 17/36] fix: never compute the error of a CP model from
 outdated cached products

The cache survived set_target, load_checkpoint, refits and changes to the
returned decomposition.
---
 src/tenkit/decomposition/cp.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 9b7fa73..7bb05e2 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -86,6 +86,15 @@ class BaseCP(BaseDecomposer):
         self.ridge_penalties = ridge_penalties
         self.rel_loss_tol = rel_loss_tol
 
+    def set_target(self, X):
+        super().set_target(X)
+        self._last_updated_mode = None
+
+    def load_checkpoint(self, checkpoint_path, load_it=None):
+        super().load_checkpoint(checkpoint_path, load_it=load_it)
+        self._last_updated_mode = None
+        self._rel_function_change = np.inf
+
     def init_random(self):
         """Random initialisation of the factor matrices.
 
@@ -168,7 +177,7 @@ class BaseCP(BaseDecomposer):
     @property
     def SSE(self):
         """Sum Squared Error"""
-        if hasattr(self, '_last_updated_mode') and self._last_updated_mode is not None:
+        if self._last_updated_mode is not None:
             # ||X - Y||_F^2 = ||X||_F^2 + ||Y||_F^2 - 2<X, Y>_F
             # Y = [U_0, U_1, U_2], <X, Y> = sum(U_i*mttkrp(X, Y, skip=i))
             
@@ -430,6 +439,9 @@ class CP_ALS(BaseCP):
     def _fit(self):
         """Fit a CP model with Alternating Least Squares.
         """
+        # The decomposition can have been changed since the last iteration
+        self._last_updated_mode = None
+        self.prev_SSE = self.SSE
         for it in range(self.max_its - self.current_iteration):
             rel_loss = self.SSE/self.X_norm**2
             if (
@@ -445,6 +457,9 @@ class CP_ALS(BaseCP):
 
             self._after_fit_iteration()
 
+        # The cache is not valid anymore if the decomposition is changed (e.g. normalised)
+        self._last_updated_mode = None
+
         if ((it+1) % self.checkpoint_frequency != 0) and (self.checkpoint_frequency > 0):
             self.store_checkpoint()
 
-- 
2.43.0


From 8830465e07c4c1a1362a57180c6f07ab679be55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:09 +0000
Subject: [PATCH 18/36] fix: keep the weights of the starting point of CP and
 coupled fits

ALS assumes unit weights, but discarded those of precomputed and loaded
starting points and ignored those of normalised models that were fitted on.
---
 src/tenkit/decomposition/cmtf.py | 12 ++++++++----
 src/tenkit/decomposition/cp.py   | 12 +++++++++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index b9a992e..c4f0ff3 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -76,10 +76,14 @@ class CMTF_ALS(CP_ALS):
     def _init_fit(self, X, coupled_matrices, coupling_modes, max_its, initial_decomposition):
         self.set_coupled_matrices(coupled_matrices, coupling_modes)
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self._rel_function_change = np.inf
-        self.prev_SSE = self.SSE
-        
-        self.decomposition.normalize_components()
+
+    def _absorb_weights(self):
+        weights = self.weights.copy()
+        weights[weights == 0] = 1
+        mode = super()._absorb_weights()
+        # Do not change the matrices that are coupled with the rescaled factor matrix
+        for cm_idx in self.mode_to_cm_idx.get(mode, []):
+            self.uncoupled_factor_matrices[cm_idx][...] /= weights
 
     def _fit(self):
         super()._fit()
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 7bb05e2..0c4998f 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -344,7 +344,7 @@ class CP_ALS(BaseCP):
 
     def _init_fit(self, X, max_its, initial_decomposition):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self.decomposition.reset_weights()
+        self._absorb_weights()
         for mode, fm in enumerate(self.factor_matrices):
             if self._is_orthonormal(mode):
                 q, r = np.linalg.qr(fm)
@@ -358,6 +358,15 @@ class CP_ALS(BaseCP):
         self._matrix_khatri_rao_product_cache = None
         # self._matrix_khatri_rao_product_cache = [np.empty_like(factor) for factor in self.factor_matrices]
 
+    def _absorb_weights(self):
+        """Move the weights into a factor matrix, since ALS assumes that they are one.
+        """
+        modes = range(len(self.factor_matrices))
+        mode = min(modes, key=lambda mode: (self._is_orthonormal(mode), self._is_non_negative(mode)))
+        self.factor_matrices[mode][...] *= self.weights
+        self.decomposition.reset_weights()
+        return mode
+
     def _is_non_negative(self, mode):
         return self.non_negativity_constraints is not None and self.non_negativity_constraints[mode]
 
@@ -441,6 +450,7 @@ class CP_ALS(BaseCP):
         """
         # The decomposition can have been changed since the last iteration
         self._last_updated_mode = None
+        self._absorb_weights()
         self.prev_SSE = self.SSE
         for it in range(self.max_its - self.current_iteration):
             rel_loss = self.SSE/self.X_norm**2
-- 
2.43.0


From b23b96ab563ca1d4527000553b128dacdec81c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 19/36] fix: do not refer to a checkpoint before it is complete

A failure while storing a checkpoint made the file refer to a checkpoint
that could not be loaded, and the checkpoint could not be stored again.
---
 src/tenkit/decomposition/base_decomposer.py | 14 ++++++++------
 src/tenkit/decomposition/cmtf.py            | 11 +----------
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 56fbe82..6263927 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -177,15 +177,17 @@ class BaseDecomposer(ABC):
     
     def store_checkpoint(self):
         with h5py.File(self.checkpoint_path, 'a') as h5:
-            if 'checkpoint_its' not in h5.attrs:
-                h5.attrs['checkpoint_its'] = [self.current_iteration]
-            else:
-                h5.attrs['checkpoint_its'] = [*h5.attrs['checkpoint_its'], self.current_iteration]
+            # Complete the group first, so the attributes never refer to a part of a checkpoint
+            group_name = f'checkpoint_{self.current_iteration:05d}'
+            if group_name in h5:
+                del h5[group_name]
+            checkpoint_group = h5.create_group(group_name)
+            self.decomposition.store_in_hdf5_group(checkpoint_group)
 
+            previous_its = [it for it in h5.attrs.get('checkpoint_its', []) if it < self.current_iteration]
+            h5.attrs['checkpoint_its'] = [*previous_its, self.current_iteration]
             h5.attrs['final_iteration'] = self.current_iteration
             h5.attrs['decomposition_type'] = type(self).__name__
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
-            self.decomposition.store_in_hdf5_group(checkpoint_group)
 
             for logger in self.loggers:
                 logger.write_to_hdf5_group(h5)
diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index c4f0ff3..24a353d 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -1,4 +1,3 @@
-import h5py
 import numpy as np
 from .cp import CP_ALS
 
@@ -8,15 +7,7 @@ from .. import base
 
 
 class CMTF_ALS(CP_ALS): 
-    def store_checkpoint(self):
-        #TODO: store the matrices as well
-        with h5py.File(self.checkpoint_path, 'a') as h5:
-            h5.attrs['final_iteration'] = self.current_iteration
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
-            self.decomposition.store_in_hdf5_group(checkpoint_group)
-            for logger in self.loggers:
-                logger.write_to_hdf5_group(h5)
-
+    #TODO: store the matrices in checkpoints as well
 
     @property
     def coupled_factor_matrices(self):
-- 
2.43.0


From 471b2f287e2abfd6c4f91b18323ad0c5c08e3aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 20/36] fix: iteration numbers and final checkpoints of
 continued and resumed fits

The last iteration was stored twice, under the number of the next iteration
or not at all depending on where the fit stopped, resumed fits repeated the
last iteration and fits without remaining iterations failed.
---
 src/tenkit/decomposition/base_decomposer.py | 32 +++++++++++++++++----
 src/tenkit/decomposition/cp.py              |  6 ++--
 src/tenkit/decomposition/parafac2.py        | 18 ++++++------
 3 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 6263927..da372b9 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -207,8 +207,7 @@ class BaseDecomposer(ABC):
                 raise ValueError(f'There is no checkpoints in {checkpoint_path}')
 
             if load_it is None:
-                load_it = h5.attrs['final_iteration']
-            self.current_iteration = load_it
+                load_it = int(h5.attrs['final_iteration'])
 
             group_name = f'checkpoint_{load_it:05d}'
             if group_name not in h5:
@@ -219,13 +218,34 @@ class BaseDecomposer(ABC):
 
         self._check_valid_components(initial_decomposition)
         self.decomposition = initial_decomposition
-    
+        self.current_iteration = load_it + 1
+
+    def _should_checkpoint_iteration(self, it):
+        return self.checkpoint_frequency > 0 and (it+1) % self.checkpoint_frequency == 0
+
     def _after_fit_iteration(self):
         for logger in self.loggers:
             logger.log(self)
 
-        it = self.current_iteration
-        if ((it+1) % self.checkpoint_frequency == 0) and (self.checkpoint_frequency > 0):
+        if self.checkpoint_path is not None and self._should_checkpoint_iteration(self.current_iteration):
             self.store_checkpoint()
 
-        self.current_iteration += 1
\ No newline at end of file
+        self.current_iteration += 1
+
+    def _after_fit(self, first_iteration):
+        """Checkpoint the last iteration, unless that is done already or no iterations were run.
+        """
+        last_iteration = self.current_iteration - 1
+        if (
+            self.checkpoint_path is None or
+            last_iteration < first_iteration or
+            self._should_checkpoint_iteration(last_iteration)
+        ):
+            return
+
+        # Checkpoints are named after the iteration they are the result of
+        self.current_iteration = last_iteration
+        try:
+            self.store_checkpoint()
+        finally:
+            self.current_iteration = last_iteration + 1
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 0c4998f..8d6a8e5 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -452,7 +452,8 @@ class CP_ALS(BaseCP):
         self._last_updated_mode = None
         self._absorb_weights()
         self.prev_SSE = self.SSE
-        for it in range(self.max_its - self.current_iteration):
+        first_iteration = self.current_iteration
+        for _ in range(self.max_its - self.current_iteration):
             rel_loss = self.SSE/self.X_norm**2
             if (
                 abs(self._rel_function_change) < self.convergence_tol 
@@ -470,8 +471,7 @@ class CP_ALS(BaseCP):
         # The cache is not valid anymore if the decomposition is changed (e.g. normalised)
         self._last_updated_mode = None
 
-        if ((it+1) % self.checkpoint_frequency != 0) and (self.checkpoint_frequency > 0):
-            self.store_checkpoint()
+        self._after_fit(first_iteration)
 
     def init_random(self):
         super().init_random()
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 97484f4..2f7a822 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -372,6 +372,10 @@ class Parafac2_ALS(BaseParafac2):
         self.prev_loss = self.loss
         self._rel_function_change = np.inf
 
+    def load_checkpoint(self, checkpoint_path, load_it=None):
+        super().load_checkpoint(checkpoint_path, load_it=load_it)
+        self._rel_function_change = np.inf
+
     def _prepare_cp_decomposer(self):
         self.cp_decomposition = decompositions.KruskalTensor([self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C])
         self.cp_decomposer = cp.CP_ALS(
@@ -389,25 +393,23 @@ class Parafac2_ALS(BaseParafac2):
     def _fit(self):
 
         self._prepare_cp_decomposer()
-        for it in range(self.max_its - self.current_iteration):
+        # The decomposition can have been changed since the last iteration
+        self.prev_loss = self.loss
+        first_iteration = self.current_iteration
+        for _ in range(self.max_its - self.current_iteration):
             if abs(self._rel_function_change) < self.convergence_tol:
                 break
 
             self._update_parafac2_factors()
             self._update_convergence()
 
-            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
+            if self.print_frequency > 0 and self.current_iteration % self.print_frequency == 0:
                 print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
                       f'improvement is {self._rel_function_change:g}')
 
             self._after_fit_iteration()
 
-
-        if (
-            ((self.current_iteration+1) % self.checkpoint_frequency != 0) and 
-            (self.checkpoint_frequency > 0)
-        ):
-            self.store_checkpoint()
+        self._after_fit(first_iteration)
 
     def _update_convergence(self):
         loss = self.loss
-- 
2.43.0


From 5f7a18f91a62abfff5fe58dbe1c0d14c427e838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 21/36] fix: refuse starting points with a wrong number of
 modes or slices

---
 src/tenkit/decomposition/cp.py       | 6 ++++++
 src/tenkit/decomposition/parafac2.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 8d6a8e5..632f895 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -123,6 +123,12 @@ class BaseCP(BaseDecomposer):
     def _check_valid_components(self, decomposition):
         """Check if provided factor matrices have correct shape.
         """
+        n_modes = len(decomposition.factor_matrices)
+        if n_modes != len(self.X.shape):
+            raise ValueError(
+                f"The number of factor matrices ({n_modes}) is not the same as the number of modes of X ({len(self.X.shape)})."
+            )
+
         for i, factor_matrix in enumerate(decomposition.factor_matrices):
             len_, rank = factor_matrix.shape
             if rank != self.rank:
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 2f7a822..479e343 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -160,6 +160,12 @@ class BaseParafac2(BaseDecomposer):
                     f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
                 )
         
+        if len(decomposition.B) != len(self.X):
+            raise ValueError(
+                f"The number of evolving factor matrices ({len(decomposition.B)}) "
+                f"is not the same as the number of slices of X ({len(self.X)})"
+            )
+
         for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
             if B.shape[0] != X_slice.shape[1]:
                 raise ValueError(
-- 
2.43.0


From e6fa56d69fbed6ce5c62758d339e6404c95beb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 22/36] fix: SVD initialisation of PARAFAC2

---
 src/tenkit/decomposition/parafac2.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 479e343..7c2917f 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -102,19 +102,22 @@ class BaseParafac2(BaseDecomposer):
     def init_svd(self):
         """SVD initalisation
         """
-        # TODO: This does not work for irregular tensors
-        K = self.X_shape[2]
-        J = self.X_shape[1]
-        Y = np.zeros([J, J])
+        I, J, K = self.X_shape
+        if self.rank > I or self.rank > min(J):
+            raise ValueError(
+                "SVD initialisation does not work when rank is larger than the smallest dimension of the slices."
+                f" (rank:{self.rank}, dimensions: {self.X_shape})"
+            )
 
+        Y = np.zeros([I, I])
         for k in range(K):
-            Y += self.X[k].T @ self.X[k]
+            Y += self.X[k] @ self.X[k].T
 
         A = get_pca_loadings(Y, self.rank)
         blueprint_B = np.identity(self.rank)
         C = np.ones((K, self.rank))
 
-        P = [np.eye(J, self.rank) for k in range(K)]
+        P = [np.eye(J_k, self.rank) for J_k in J]
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
         self._update_projection_matrices()
-- 
2.43.0


From f5741aef3ed2aa3808880aef2e1d5cbfdea3ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 23/36] fix: separate projection matrices for each slice after
 CP initialisation

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 7c2917f..17def2f 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -130,7 +130,7 @@ class BaseParafac2(BaseDecomposer):
         cp_als.fit(X)
         C, A, B = cp_als.factor_matrices
         P, blueprint_B = np.linalg.qr(B)
-        P = [P for _ in range(len(self.X))]
+        P = [P.copy() for _ in range(len(self.X))]
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
     def init_components(self, initial_decomposition=None):
-- 
2.43.0


From 39cbe3a1e11fc041f16c3a4dc8ecda3c18422853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 24/36] fix: MSE and regularised loss of coupled fits

---
 src/tenkit/decomposition/cmtf.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 24a353d..c736e0f 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -38,17 +38,13 @@ class CMTF_ALS(CP_ALS):
     def MSE(self):
         #raise NotImplementedError('Not implemented') 
         # TODO: fix this
-        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_factor_matrices)
+        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_matrices)
         return self.SSE/num_elements
 
     @property
     def RMSE(self):
         return np.sqrt(self.MSE)
 
-    @property
-    def loss(self):
-        return self.SSE  # TODO: skal det være property?
-
     def set_coupled_matrices(self, coupled_matrices, coupling_modes):
         self.coupled_matrices = coupled_matrices
         self.coupling_modes = coupling_modes
-- 
2.43.0


From d77b04efb9114ca67de899a0f1ce5e96454a29eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:20 +0000
Subject: [PATCH 25/36] fix: solve badly scaled least squares problems
 accurately

The length of the columns of the factors is arbitrary, and differs by many
orders of magnitude when a component vanishes.
---
 src/tenkit/base.py               | 12 ++++++++++++
 src/tenkit/decomposition/cmtf.py |  6 +++---
 src/tenkit/decomposition/cp.py   | 12 ++++++++----
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 16a3668..9d56d51 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -46,6 +46,18 @@ def orthogonal_solve(A, B):
     return (Vh.T * should_keep)@ U.T
 
 
+def add_rightsolve_scaling(rightsolve):
+    """Solve with the rows of A scaled to unit length.
+
+    Gives accurate solutions also if the rows are of very different lengths.
+    """
+    def scaled_rightsolve(A, B):
+        scale = np.linalg.norm(A, axis=1)
+        scale[scale == 0] = 1
+        return rightsolve(A/scale[:, np.newaxis], B)/scale
+    return scaled_rightsolve
+
+
 def add_rightsolve_ridge(rightsolve, ridge_penalty):
     def ridge_rightsolve(A, B):
         n, m = A.shape
diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index c736e0f..c3ded9d 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -172,10 +172,10 @@ class CMTF_ALS(CP_ALS):
             rhs = self.coupled_matrices[cm_idx].T
 
             if self._is_non_negative(mode):
-                new_fm = base.non_negative_rightsolve(lhs, rhs)
-                self.uncoupled_factor_matrices[cm_idx][...] = new_fm
+                rightsolve = base.add_rightsolve_scaling(base.non_negative_rightsolve)
             else:
-                self.uncoupled_factor_matrices[cm_idx][...] = base.rightsolve(lhs, rhs)
+                rightsolve = base.add_rightsolve_scaling(base.rightsolve)
+            self.uncoupled_factor_matrices[cm_idx][...] = rightsolve(lhs, rhs)
 
 
 
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 632f895..b97f650 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -395,7 +395,10 @@ class CP_ALS(BaseCP):
         rightsolve = base.rightsolve
         if self._is_non_negative(mode):
             rightsolve = base.non_negative_rightsolve
-        
+
+        # The columns of the factors can be of very different lengths, e.g. if components vanish
+        rightsolve = base.add_rightsolve_scaling(rightsolve)
+
         if self._is_orthonormal(mode):
             if self._is_non_negative(mode):
                 raise ValueError('Cannot perform nonnegative orthogonal solve')
@@ -431,14 +434,15 @@ class CP_ALS(BaseCP):
         """
         # The columns of the other factors can have very different lengths
         scale = np.sqrt(np.diag(lhs))
-        scale[scale == 0] = 1
-        eigenvalues, eigenvectors = np.linalg.eigh(lhs/np.outer(scale, scale))
+        inverse_scale = np.zeros_like(scale)
+        inverse_scale[scale > 0] = 1/scale[scale > 0]
+        eigenvalues, eigenvectors = np.linalg.eigh(lhs*np.outer(inverse_scale, inverse_scale))
         is_nonzero = eigenvalues > len(lhs)*np.finfo(float).eps*eigenvalues[-1]
         singular_values = np.sqrt(np.where(is_nonzero, eigenvalues, 0))
         inverse_singular_values = np.zeros_like(singular_values)
         inverse_singular_values[is_nonzero] = 1/singular_values[is_nonzero]
         A = scale[:, np.newaxis]*eigenvectors*singular_values
-        B = (rhs/scale)@eigenvectors*inverse_singular_values
+        B = (rhs*inverse_scale)@eigenvectors*inverse_singular_values
         return A, B
 
     def _update_als_factors(self):
-- 
2.43.0


From fa1b2827bd132213b2a6e8baabed2c854aad24f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 26/36] fix: accept integer weights in Kruskal tensors that are
 normalised

---
 src/tenkit/decomposition/decompositions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 31b7984..cae43cd 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -126,6 +126,9 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'The factor matrices has {self.rank} columns, but there are {len(weights)} weights.'
                 )
         self.weights = np.asarray(weights)
+        if not np.issubdtype(self.weights.dtype, np.inexact):
+            # The weights are updated in place with real numbers
+            self.weights = self.weights.astype(float)
     
     @property
     def shape(self):
-- 
2.43.0


From 88c8f4a33252459c86ac2bb031b1dac382d862f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:24 +0000
Subject: [PATCH 27/36] fix: no overflow in CP updates when a component
 vanishes

---
 src/tenkit/decomposition/cp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index b97f650..d0ebc5c 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -436,7 +436,7 @@ class CP_ALS(BaseCP):
         scale = np.sqrt(np.diag(lhs))
         inverse_scale = np.zeros_like(scale)
         inverse_scale[scale > 0] = 1/scale[scale > 0]
-        eigenvalues, eigenvectors = np.linalg.eigh(lhs*np.outer(inverse_scale, inverse_scale))
+        eigenvalues, eigenvectors = np.linalg.eigh(lhs*inverse_scale[:, np.newaxis]*inverse_scale)
         is_nonzero = eigenvalues > len(lhs)*np.finfo(float).eps*eigenvalues[-1]
         singular_values = np.sqrt(np.where(is_nonzero, eigenvalues, 0))
         inverse_singular_values = np.zeros_like(singular_values)
-- 
2.43.0


From e1a8adf7ef4275a24fa6a9294b7b3369ee420cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 28/36] fix: no negative errors, and hence undefined RMSE, of
 exact CP fits

---
 src/tenkit/decomposition/cp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index d0ebc5c..3f1f6a9 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -187,7 +187,9 @@ class BaseCP(BaseDecomposer):
             # ||X - Y||_F^2 = ||X||_F^2 + ||Y||_F^2 - 2<X, Y>_F
             # Y = [U_0, U_1, U_2], <X, Y> = sum(U_i*mttkrp(X, Y, skip=i))
             
-            return (
+            # Rounding errors can make the sum negative if the fit is (almost) exact
+            return np.maximum(
+                0,
                 self.X_norm**2
                  + np.linalg.norm(self.reconstructed_X)**2
                  - 2*self._inner_prod_X_reconstructed_X
-- 
2.43.0


From 46a22b30bcae6d5bd7e3186a17c3a40bea360ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:54 +0000
Subject: [PATCH 29/36] fix: no unreadable file if the process dies while it
 writes the first checkpoint

---
 src/tenkit/decomposition/base_decomposer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index da372b9..f41062f 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -3,6 +3,7 @@ Contains the base class for all decomposition methods in TensorKit
 """
 
 
+import os
 from abc import ABC, abstractmethod, abstractproperty
 from . import decompositions
 import numpy as np
@@ -176,6 +177,12 @@ class BaseDecomposer(ABC):
         self._fit()
     
     def store_checkpoint(self):
+        if not os.path.exists(self.checkpoint_path):
+            # A process that dies while it writes the first checkpoint must not leave a file that can't be opened
+            new_path = f'{self.checkpoint_path}.new'
+            h5py.File(new_path, 'w').close()
+            os.replace(new_path, self.checkpoint_path)
+
         with h5py.File(self.checkpoint_path, 'a') as h5:
             # Complete the group first, so the attributes never refer to a part of a checkpoint
             group_name = f'checkpoint_{self.current_iteration:05d}'
-- 
2.43.0


From 4926b9f536e798ed3f69cc6918e1a84b2756d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 30/36] fix: leverage of factor matrices with linearly
 dependent columns

---
 src/tenkit/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/metrics.py b/src/tenkit/metrics.py
index fdb7ac7..9a9e265 100644
--- a/src/tenkit/metrics.py
+++ b/src/tenkit/metrics.py
@@ -189,7 +189,7 @@ def calculate_core_consistencies(X, upper_rank=5):
 
 
 def leverage(factor_matrix):
-    leverage_scores = np.diagonal(factor_matrix@np.linalg.inv((factor_matrix.T@factor_matrix)).T@factor_matrix.T)
+    leverage_scores = np.diagonal(factor_matrix@np.linalg.pinv(factor_matrix))
     return leverage_scores
 
 
-- 
2.43.0


From 94651980e3a1a2caf78659b951434a3133848c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:58 +0000
Subject: [PATCH 31/36] fix: replace the results of an experiment when it is
 continued

Writing into the old dataset truncated values to its type, broadcast them to
its shape or failed, and results that were not there before raised.
---
 src/tenkit/log.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/tenkit/log.py b/src/tenkit/log.py
index a1f6072..b652293 100644
--- a/src/tenkit/log.py
+++ b/src/tenkit/log.py
@@ -163,17 +163,15 @@ class Experiment:
                     continue
                 g.attrs[param] = value
             for pname, param in outputs.items():
-                if not continue_old:
-                    g[pname] = param
-                else:
-                    g[pname][...] = param
+                if continue_old and pname in g:
+                    del g[pname]
+                g[pname] = param
             
         final_eval_metrics = final_eval(X, experiment_params, outputs)
         with h5py.File(self.fname, 'a') as h5:
             g = h5[self.ex_name]
             for pname, param in final_eval_metrics.items():
-                if not continue_old:
-                    g[pname] = param
-                else:
-                    g[pname][...] = param
+                if continue_old and pname in g:
+                    del g[pname]
+                g[pname] = param
 
-- 
2.43.0


From 16c974fa8d1b3764067f0c865ea93be3ddc9f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:38 +0000
Subject: [PATCH 32/36] fix: restore the line endings of utils.py and
 parafac2.py

Two earlier repairs had changed them throughout.
---
 src/tenkit/decomposition/parafac2.py | 904 +++++++++++++--------------
 src/tenkit/utils.py                  | 450 ++++++-------
 2 files changed, 677 insertions(+), 677 deletions(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 17def2f..3ce408b 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -1,452 +1,452 @@
-from abc import abstractmethod
-from pathlib import Path
-import warnings
-import numpy as np
-from .base_decomposer import BaseDecomposer
-from . import decompositions
-from . import cp
-from ..utils import normalize_factors, get_pca_loadings
-from .. import base
-
-
-__all__ = ['Parafac2_ALS']
-
-
-class BaseParafac2(BaseDecomposer):
-    r"""Base class for Parafac2 decomposer objects
-
-    Arguments:
-    ----------
-    rank: int
-        Number of components 
-    max_its: int (optional, default=1000)
-        Maximum number of iterations for fitting the model. 
-        Can be overwritten by the ``fit`` method.
-    convergence_tol: float (optional, default=1e-6)
-        Minimum relative function change between two consequetive
-        iterations for the model to continue fitting. Computed as
-        
-        .. math::
-
-            \frac{L(X_i) - L(X_{i+1})}{L(X_{i+1})},
-        
-        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
-        is the decomposition at iteration :math:`i`.
-    init: str (optional, default = 'random')
-        Initialisation scheme for the decomposer (case insensitive). Options:
-    
-          * Random: Initiate the decomposition as a random Parafac2 tensor
-          * SVD: Use the SVD to find the factor matrices
-          * CP: Run 20 CP iterations and use that decomposition as initial
-          Parafac2 tensor (QR on the evolving mode to split into projection
-          and blueprint matrices)
-          * from_checkpoint: Load the last iteration in the specified
-          checkpoint file (alternatively, just the path to the decomposition file)
-          * Precomputed: Use already existing Parafac2 tensor to initialise
-          the decomposition. 
-
-    logger: list(Logger) (optional, default=None)
-        List of loggers, each logger should implement a ``log`` method
-        that takes a decomposer as input and a ``write_to_hdf5_group``
-        method that stores the log in a hdf5 group. See 
-        ``tenkit.logging.BaseLogger`` for interface.
-    checkpoint_frequency: int (optional, default=None)
-        How often the decomposer should store the decomposition and
-        logs to disk. If None or negative, will only
-        checkpoint the last iteration. 
-    checkpoint_path: str or Path (optional, default=None)
-        Where to store the log HDF5 file. If None, then the checkpoints
-        and logs are not stored to disk.
-    print_frequency: int (optional, default=None)
-        How often convergence information should be printed in the terminal.
-        None and negative values leads to no printing.
-    """
-    DecompositionType = decompositions.Parafac2Tensor
-    def __init__(self, 
-        rank, 
-        max_its=1000, 
-        convergence_tol=1e-6, 
-        init='random',
-        loggers=None,
-        checkpoint_frequency=None,
-        checkpoint_path=None,
-        print_frequency=10,
-    ):
-        super().__init__(
-            max_its=max_its,
-            convergence_tol=convergence_tol,
-            loggers=loggers,
-            checkpoint_frequency=checkpoint_frequency,
-            checkpoint_path=checkpoint_path,
-            print_frequency=print_frequency,
-        )
-
-        self.rank = rank
-        self.init = init
-
-    def set_target(self, X):
-        if not isinstance(X, list):
-            self.target_tensor = X
-            X = X.transpose(2, 0, 1)
-        
-        self.X = X
-        self.X_shape = [len(X[0]), [Xk.shape[1] for Xk in X], len(X)]    # len(A), len(Bk), len(C)
-        self.X_norm = np.sqrt(sum(np.linalg.norm(Xk)**2 for Xk in X))
-        self.num_X_elements = sum([np.prod(s) for s in self.X_shape])
-
-    def init_random(self):
-        """Random initialisation of the factor matrices
-        """
-        self.decomposition = self.DecompositionType.random_init(self.X_shape, rank=self.rank)
-
-    def init_svd(self):
-        """SVD initalisation
-        """
-        I, J, K = self.X_shape
-        if self.rank > I or self.rank > min(J):
-            raise ValueError(
-                "SVD initialisation does not work when rank is larger than the smallest dimension of the slices."
-                f" (rank:{self.rank}, dimensions: {self.X_shape})"
-            )
-
-        Y = np.zeros([I, I])
-        for k in range(K):
-            Y += self.X[k] @ self.X[k].T
-
-        A = get_pca_loadings(Y, self.rank)
-        blueprint_B = np.identity(self.rank)
-        C = np.ones((K, self.rank))
-
-        P = [np.eye(J_k, self.rank) for J_k in J]
-        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
-
-        self._update_projection_matrices()
-    
-    def init_cp(self):
-        """CP initialisation. Input must be a tensor.
-        """
-        X = np.asarray(self.X)
-        cp_als = cp.CP_ALS(self.rank, 20)
-        cp_als.fit(X)
-        C, A, B = cp_als.factor_matrices
-        P, blueprint_B = np.linalg.qr(B)
-        P = [P.copy() for _ in range(len(self.X))]
-        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
-
-    def init_components(self, initial_decomposition=None):
-        if self.init.lower() == 'svd':
-            self.init_svd()
-        elif self.init.lower() == 'random':
-            self.init_random()
-        elif self.init.lower() == 'cp':
-            self.init_cp()
-        elif self.init.lower() == 'from_checkpoint':
-            self.load_checkpoint(initial_decomposition)
-        elif self.init.lower() == 'precomputed':
-            self._check_valid_components(initial_decomposition)
-            self.decomposition = initial_decomposition
-        elif Path(self.init).is_file():
-            self.load_checkpoint(self.init)
-        else:
-            # TODO: better message
-            raise ValueError('Init method must be either `random`, `svd`, `from_checkpoint` or `precomputed`.')
-
-    def _check_valid_components(self, decomposition):
-        for i, factor_matrix, factor_name in zip([0, 2], [decomposition.A, decomposition.C], ['A', 'C']):
-            if factor_matrix.shape[0] != self.X_shape[i]:
-                raise ValueError(
-                    f"The length of factor matrix {factor_name} ({factor_matrix.shape[0]}"
-                    f"is not the same as the length of X's dimension {i} ({self.X_shape[i]})"
-                )
-            if factor_matrix.shape[1] != self.rank:
-                raise ValueError(
-                    f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
-                )
-        
-        if len(decomposition.B) != len(self.X):
-            raise ValueError(
-                f"The number of evolving factor matrices ({len(decomposition.B)}) "
-                f"is not the same as the number of slices of X ({len(self.X)})"
-            )
-
-        for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
-            if B.shape[0] != X_slice.shape[1]:
-                raise ValueError(
-                    f"The number of rows of factor matrix B_{k} ({B.shape[0]}"
-                    f"is not the same as the number of columns of X_{k} ({X_slice.shape[1]})"
-                )
-
-            if B.shape[1] != self.rank:
-                raise ValueError(
-                    f"The number of columns of B_{k} ({B.shape[1]}) does not agree with the models rank ({self.rank})"
-                )
-
-    @abstractmethod
-    def _fit(self):
-        pass
-
-    def fit(self, X, y=None, max_its=None, initial_decomposition=None):
-        """Fit a parafac2 model. Precomputed components must be specified if init method is 'precomputed'
-
-        Arguments:
-        ----------
-        X : np.ndarray
-            The tensor or list of tensor slices to fit a PARAFAC2 model to. 
-            The list indices (or first mode) correspond to the C-mode in
-            the following equation
-
-            .. math::
-
-                X_k = A diag(c_k) B_k^T
-            
-            This will be changed in a later version so that the first mode
-            is the evolving mode.
-        y : None
-            Ignored, included to follow sklearn standards.
-        max_its : int (optional)
-            If set, then this will override the class's max_its.
-        initial_decomposition : tenkit.decomposition.decompositions.Parafac2Tensor or str
-            The initial KruskalTensor (init=precomputed) to use or the path of the 
-            logfile to load (init=from_file).
-        """
-
-        self._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self._fit()
-
-    def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
-        self.fit(X, y=y, max_its=max_its, initial_decomposition=initial_decomposition)
-        return self.decomposition
-
-    @property
-    def loss(self):
-        return self.SSE
-
-    def _fit(self):
-        return 1 - self.SSE/(self.X_norm**2)
-
-    @property
-    def SSE(self):
-        SSE = 0
-        for X_k, reconstructed_X_k, in zip(self.X, self.reconstructed_X):
-            SSE += np.sum((X_k - reconstructed_X_k)**2)
-        return SSE
-
-    @property
-    def MSE(self):
-        return self.SSE/self.decomposition.num_elements
-        
-    @property
-    def reconstructed_X(self):
-        return self.decomposition.construct_slices()
-    
-    @property
-    def projected_X(self):
-        I = self.decomposition.A.shape[0]
-        K = self.decomposition.C.shape[0]
-        projected_X = np.empty((I, self.rank, K))
-
-        for k, projection_matrix in enumerate(self.decomposition.projection_matrices):
-            projected_X[..., k] = self.X[k]@projection_matrix
-        return projected_X
-
-    # TODO: Change name of this function
-    def _update_projection_matrices(self):
-        K = self.X_shape[2]
-
-        for k in range(K):
-            A = self.decomposition.A
-            C = self.decomposition.C
-            blueprint_B = self.decomposition.blueprint_B
-
-            self.decomposition.projection_matrices[k][...] = base.orthogonal_solve(
-                (C[k]*A)@blueprint_B.T,
-                self.X[k]
-            ).T
-
-            # Should_keep = diag([1, 1, ..., 1, 0, 0, ..., 0]) -> the zeros correspond to small singular values
-            # Following Rasmus Bro's PARAFAC2 MATLAB script, which sets P_k = Q_k(Q_k'Q_k)^(-0.5) (line 524)
-            #      Where the power is done by truncating very small singular values (for numerical stability)
-
-
-class Parafac2_ALS(BaseParafac2):
-    r"""Decomposer for Parafac2 with ALS optimization
-
-    Arguments:
-    ----------
-    rank: int
-        Number of components 
-    max_its: int (optional, default=1000)
-        Maximum number of iterations for fitting the model. 
-        Can be overwritten by the ``fit`` method.
-    convergence_tol: float (optional, default=1e-6)
-        Minimum relative function change between two consequetive
-        iterations for the model to continue fitting. Computed as
-        
-        .. math::
-
-            \frac{L(X_i) - L(X_{i+1}) }{L(X_{i+1})},
-        
-        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
-        is the decomposition at iteration :math:`i`.
-    init: str (optional, default = 'random')
-        Initialisation scheme for the decomposer (case insensitive). Options:
-    
-          * Random: Initiate the decomposition as a random Parafac2 tensor
-          * SVD: Use the SVD to find the factor matrices
-          * CP: Run 20 CP iterations and use that decomposition as initial
-          Parafac2 tensor (QR on the evolving mode to split into projection
-          and blueprint matrices)
-          * from_checkpoint: Load the last iteration in the specified
-          checkpoint file (alternatively, just the path to the decomposition file)
-          * Precomputed: Use already existing Parafac2 tensor to initialise
-          the decomposition. 
-    logger: list(Logger) (optional, default=None)
-        List of loggers, each logger should implement a ``log`` method
-        that takes a decomposer as input and a ``write_to_hdf5_group``
-        method that stores the log in a hdf5 group. See 
-        ``tenkit.logging.BaseLogger`` for interface.
-    checkpoint_frequency: int (optional, default=None)
-        How often the decomposer should store the decomposition and
-        logs to disk. If None or negative, will only
-        checkpoint the last iteration. 
-    checkpoint_path: str or Path (optional, default=None)
-        Where to store the log HDF5 file. If None, then the checkpoints
-        and logs are not stored to disk.
-    print_frequency: int (optional, default=None)
-        How often convergence information should be printed in the terminal.
-        None and negative values leads to no printing.
-    cp_updates_per_it: int (optional, default=5)
-        Number of CP iterations to run between each projection matrix update.
-    non_negativity_constraints: list(bool) (optional, default=None)
-        If nth element in the list is True, the nth mode is constrained to be
-        non-negative. If None, no modes are constrained.
-        Note: The evolving mode cannot be constrained. 
-    ridge_penalties: list(float) (optional, default=None)
-        Regularisation parameters. The loss is regularised such that
-
-        .. math::
-
-            L_{reg} = L + \sum_i \lambda_i ||U_i||_F^2
-
-        Where :math:`L_{reg}` is the regularised loss, :math:`L` is the unregularised
-        loss, :math:`\lambda_i` is the ith element in ``ridge_penalites`` and :math:`U_i`
-        is the ith factor matrix (or blueprint factor matrix for the evolving mode). 
-        If None, no modes are regularised.
-    orthonormality_constraints: list(bool) (optional, default=None)
-        If nth element in the list is True, the nth mode is constrained to be
-        orthonormal. If None, no modes are constrained. Note: all modes should not be
-        orhtonormal and the evolving mode cannot be constrained. 
-    """
-    def __init__(
-        self,
-        rank,
-        max_its=1000, 
-        convergence_tol=1e-6, 
-        init='random',
-        loggers=None,
-        checkpoint_frequency=None,
-        checkpoint_path=None,
-        print_frequency=10,
-        cp_updates_per_it=5,
-        non_negativity_constraints=None,
-        ridge_penalties=None,
-        orthonormality_constraints=None,
-    ):
-        super().__init__(
-            rank,
-            max_its=max_its,
-            convergence_tol=convergence_tol,
-            init=init,
-            loggers=loggers,
-            checkpoint_frequency=checkpoint_frequency,
-            checkpoint_path=checkpoint_path,
-            print_frequency=print_frequency,
-        )
-        self.non_negativity_constraints = non_negativity_constraints
-        if self.non_negativity_constraints is None:
-            self.non_negativity_constraints = [False, False, False]
-        if self.non_negativity_constraints[1]:
-            warnings.warn(
-                "Non negativity constraints on the evolving (second) mode will only"
-                " be imposed on the blueprint matrix, not the evolving components.",
-                RuntimeWarning
-            )
-
-        self.cp_updates_per_it = cp_updates_per_it
-        self.ridge_penalties = ridge_penalties
-        self.orthonormality_constraints = orthonormality_constraints
-
-    def _init_fit(self, X, max_its, initial_decomposition):
-        super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self.prev_loss = self.loss
-        self._rel_function_change = np.inf
-
-    def load_checkpoint(self, checkpoint_path, load_it=None):
-        super().load_checkpoint(checkpoint_path, load_it=load_it)
-        self._rel_function_change = np.inf
-
-    def _prepare_cp_decomposer(self):
-        self.cp_decomposition = decompositions.KruskalTensor([self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C])
-        self.cp_decomposer = cp.CP_ALS(
-            self.rank,
-            max_its=np.inf, 
-            convergence_tol=0,
-            print_frequency=-1, 
-            non_negativity_constraints=self.non_negativity_constraints,
-            ridge_penalties=self.ridge_penalties,
-            orthonormality_constraints=self.orthonormality_constraints,
-            init='precomputed'
-        )
-        self.cp_decomposer._init_fit(X=self.projected_X, max_its=np.inf, initial_decomposition=self.cp_decomposition)
-
-    def _fit(self):
-
-        self._prepare_cp_decomposer()
-        # The decomposition can have been changed since the last iteration
-        self.prev_loss = self.loss
-        first_iteration = self.current_iteration
-        for _ in range(self.max_its - self.current_iteration):
-            if abs(self._rel_function_change) < self.convergence_tol:
-                break
-
-            self._update_parafac2_factors()
-            self._update_convergence()
-
-            if self.print_frequency > 0 and self.current_iteration % self.print_frequency == 0:
-                print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
-                      f'improvement is {self._rel_function_change:g}')
-
-            self._after_fit_iteration()
-
-        self._after_fit(first_iteration)
-
-    def _update_convergence(self):
-        loss = self.loss
-        self._rel_function_change = (self.prev_loss - loss)/self.prev_loss
-        self.prev_loss = loss
-
-    def _update_parafac2_factors(self):
-        #print('Before projection update') 
-        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
-        self._update_projection_matrices()
-
-        #print('Before ALS update') 
-        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
-
-        self.cp_decomposer.set_target(self.projected_X)
-        for _ in range(self.cp_updates_per_it):
-            self.cp_decomposer._update_als_factors()
-        self.decomposition.blueprint_B[...] *= self.cp_decomposer.weights
-        self.cp_decomposition.weights = self.cp_decomposition.weights*0 + 1
-        #print('After iteration') 
-        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
-        # from pdb import set_trace; set_trace()
-
-    @property
-    def loss(self):
-        loss = self.SSE
-        if self.ridge_penalties is not None:
-            factor_matrices = [self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C]
-            for factor, penalty in zip(factor_matrices, self.ridge_penalties):
-                loss += penalty*np.linalg.norm(factor)**2
-        return loss
+from abc import abstractmethod
+from pathlib import Path
+import warnings
+import numpy as np
+from .base_decomposer import BaseDecomposer
+from . import decompositions
+from . import cp
+from ..utils import normalize_factors, get_pca_loadings
+from .. import base
+
+
+__all__ = ['Parafac2_ALS']
+
+
+class BaseParafac2(BaseDecomposer):
+    r"""Base class for Parafac2 decomposer objects
+
+    Arguments:
+    ----------
+    rank: int
+        Number of components 
+    max_its: int (optional, default=1000)
+        Maximum number of iterations for fitting the model. 
+        Can be overwritten by the ``fit`` method.
+    convergence_tol: float (optional, default=1e-6)
+        Minimum relative function change between two consequetive
+        iterations for the model to continue fitting. Computed as
+        
+        .. math::
+
+            \frac{L(X_i) - L(X_{i+1})}{L(X_{i+1})},
+        
+        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
+        is the decomposition at iteration :math:`i`.
+    init: str (optional, default = 'random')
+        Initialisation scheme for the decomposer (case insensitive). Options:
+    
+          * Random: Initiate the decomposition as a random Parafac2 tensor
+          * SVD: Use the SVD to find the factor matrices
+          * CP: Run 20 CP iterations and use that decomposition as initial
+          Parafac2 tensor (QR on the evolving mode to split into projection
+          and blueprint matrices)
+          * from_checkpoint: Load the last iteration in the specified
+          checkpoint file (alternatively, just the path to the decomposition file)
+          * Precomputed: Use already existing Parafac2 tensor to initialise
+          the decomposition. 
+
+    logger: list(Logger) (optional, default=None)
+        List of loggers, each logger should implement a ``log`` method
+        that takes a decomposer as input and a ``write_to_hdf5_group``
+        method that stores the log in a hdf5 group. See 
+        ``tenkit.logging.BaseLogger`` for interface.
+    checkpoint_frequency: int (optional, default=None)
+        How often the decomposer should store the decomposition and
+        logs to disk. If None or negative, will only
+        checkpoint the last iteration. 
+    checkpoint_path: str or Path (optional, default=None)
+        Where to store the log HDF5 file. If None, then the checkpoints
+        and logs are not stored to disk.
+    print_frequency: int (optional, default=None)
+        How often convergence information should be printed in the terminal.
+        None and negative values leads to no printing.
+    """
+    DecompositionType = decompositions.Parafac2Tensor
+    def __init__(self, 
+        rank, 
+        max_its=1000, 
+        convergence_tol=1e-6, 
+        init='random',
+        loggers=None,
+        checkpoint_frequency=None,
+        checkpoint_path=None,
+        print_frequency=10,
+    ):
+        super().__init__(
+            max_its=max_its,
+            convergence_tol=convergence_tol,
+            loggers=loggers,
+            checkpoint_frequency=checkpoint_frequency,
+            checkpoint_path=checkpoint_path,
+            print_frequency=print_frequency,
+        )
+
+        self.rank = rank
+        self.init = init
+
+    def set_target(self, X):
+        if not isinstance(X, list):
+            self.target_tensor = X
+            X = X.transpose(2, 0, 1)
+        
+        self.X = X
+        self.X_shape = [len(X[0]), [Xk.shape[1] for Xk in X], len(X)]    # len(A), len(Bk), len(C)
+        self.X_norm = np.sqrt(sum(np.linalg.norm(Xk)**2 for Xk in X))
+        self.num_X_elements = sum([np.prod(s) for s in self.X_shape])
+
+    def init_random(self):
+        """Random initialisation of the factor matrices
+        """
+        self.decomposition = self.DecompositionType.random_init(self.X_shape, rank=self.rank)
+
+    def init_svd(self):
+        """SVD initalisation
+        """
+        I, J, K = self.X_shape
+        if self.rank > I or self.rank > min(J):
+            raise ValueError(
+                "SVD initialisation does not work when rank is larger than the smallest dimension of the slices."
+                f" (rank:{self.rank}, dimensions: {self.X_shape})"
+            )
+
+        Y = np.zeros([I, I])
+        for k in range(K):
+            Y += self.X[k] @ self.X[k].T
+
+        A = get_pca_loadings(Y, self.rank)
+        blueprint_B = np.identity(self.rank)
+        C = np.ones((K, self.rank))
+
+        P = [np.eye(J_k, self.rank) for J_k in J]
+        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
+
+        self._update_projection_matrices()
+    
+    def init_cp(self):
+        """CP initialisation. Input must be a tensor.
+        """
+        X = np.asarray(self.X)
+        cp_als = cp.CP_ALS(self.rank, 20)
+        cp_als.fit(X)
+        C, A, B = cp_als.factor_matrices
+        P, blueprint_B = np.linalg.qr(B)
+        P = [P.copy() for _ in range(len(self.X))]
+        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
+
+    def init_components(self, initial_decomposition=None):
+        if self.init.lower() == 'svd':
+            self.init_svd()
+        elif self.init.lower() == 'random':
+            self.init_random()
+        elif self.init.lower() == 'cp':
+            self.init_cp()
+        elif self.init.lower() == 'from_checkpoint':
+            self.load_checkpoint(initial_decomposition)
+        elif self.init.lower() == 'precomputed':
+            self._check_valid_components(initial_decomposition)
+            self.decomposition = initial_decomposition
+        elif Path(self.init).is_file():
+            self.load_checkpoint(self.init)
+        else:
+            # TODO: better message
+            raise ValueError('Init method must be either `random`, `svd`, `from_checkpoint` or `precomputed`.')
+
+    def _check_valid_components(self, decomposition):
+        for i, factor_matrix, factor_name in zip([0, 2], [decomposition.A, decomposition.C], ['A', 'C']):
+            if factor_matrix.shape[0] != self.X_shape[i]:
+                raise ValueError(
+                    f"The length of factor matrix {factor_name} ({factor_matrix.shape[0]}"
+                    f"is not the same as the length of X's dimension {i} ({self.X_shape[i]})"
+                )
+            if factor_matrix.shape[1] != self.rank:
+                raise ValueError(
+                    f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
+                )
+        
+        if len(decomposition.B) != len(self.X):
+            raise ValueError(
+                f"The number of evolving factor matrices ({len(decomposition.B)}) "
+                f"is not the same as the number of slices of X ({len(self.X)})"
+            )
+
+        for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
+            if B.shape[0] != X_slice.shape[1]:
+                raise ValueError(
+                    f"The number of rows of factor matrix B_{k} ({B.shape[0]}"
+                    f"is not the same as the number of columns of X_{k} ({X_slice.shape[1]})"
+                )
+
+            if B.shape[1] != self.rank:
+                raise ValueError(
+                    f"The number of columns of B_{k} ({B.shape[1]}) does not agree with the models rank ({self.rank})"
+                )
+
+    @abstractmethod
+    def _fit(self):
+        pass
+
+    def fit(self, X, y=None, max_its=None, initial_decomposition=None):
+        """Fit a parafac2 model. Precomputed components must be specified if init method is 'precomputed'
+
+        Arguments:
+        ----------
+        X : np.ndarray
+            The tensor or list of tensor slices to fit a PARAFAC2 model to. 
+            The list indices (or first mode) correspond to the C-mode in
+            the following equation
+
+            .. math::
+
+                X_k = A diag(c_k) B_k^T
+            
+            This will be changed in a later version so that the first mode
+            is the evolving mode.
+        y : None
+            Ignored, included to follow sklearn standards.
+        max_its : int (optional)
+            If set, then this will override the class's max_its.
+        initial_decomposition : tenkit.decomposition.decompositions.Parafac2Tensor or str
+            The initial KruskalTensor (init=precomputed) to use or the path of the 
+            logfile to load (init=from_file).
+        """
+
+        self._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
+        self._fit()
+
+    def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
+        self.fit(X, y=y, max_its=max_its, initial_decomposition=initial_decomposition)
+        return self.decomposition
+
+    @property
+    def loss(self):
+        return self.SSE
+
+    def _fit(self):
+        return 1 - self.SSE/(self.X_norm**2)
+
+    @property
+    def SSE(self):
+        SSE = 0
+        for X_k, reconstructed_X_k, in zip(self.X, self.reconstructed_X):
+            SSE += np.sum((X_k - reconstructed_X_k)**2)
+        return SSE
+
+    @property
+    def MSE(self):
+        return self.SSE/self.decomposition.num_elements
+        
+    @property
+    def reconstructed_X(self):
+        return self.decomposition.construct_slices()
+    
+    @property
+    def projected_X(self):
+        I = self.decomposition.A.shape[0]
+        K = self.decomposition.C.shape[0]
+        projected_X = np.empty((I, self.rank, K))
+
+        for k, projection_matrix in enumerate(self.decomposition.projection_matrices):
+            projected_X[..., k] = self.X[k]@projection_matrix
+        return projected_X
+
+    # TODO: Change name of this function
+    def _update_projection_matrices(self):
+        K = self.X_shape[2]
+
+        for k in range(K):
+            A = self.decomposition.A
+            C = self.decomposition.C
+            blueprint_B = self.decomposition.blueprint_B
+
+            self.decomposition.projection_matrices[k][...] = base.orthogonal_solve(
+                (C[k]*A)@blueprint_B.T,
+                self.X[k]
+            ).T
+
+            # Should_keep = diag([1, 1, ..., 1, 0, 0, ..., 0]) -> the zeros correspond to small singular values
+            # Following Rasmus Bro's PARAFAC2 MATLAB script, which sets P_k = Q_k(Q_k'Q_k)^(-0.5) (line 524)
+            #      Where the power is done by truncating very small singular values (for numerical stability)
+
+
+class Parafac2_ALS(BaseParafac2):
+    r"""Decomposer for Parafac2 with ALS optimization
+
+    Arguments:
+    ----------
+    rank: int
+        Number of components 
+    max_its: int (optional, default=1000)
+        Maximum number of iterations for fitting the model. 
+        Can be overwritten by the ``fit`` method.
+    convergence_tol: float (optional, default=1e-6)
+        Minimum relative function change between two consequetive
+        iterations for the model to continue fitting. Computed as
+        
+        .. math::
+
+            \frac{L(X_i) - L(X_{i+1}) }{L(X_{i+1})},
+        
+        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
+        is the decomposition at iteration :math:`i`.
+    init: str (optional, default = 'random')
+        Initialisation scheme for the decomposer (case insensitive). Options:
+    
+          * Random: Initiate the decomposition as a random Parafac2 tensor
+          * SVD: Use the SVD to find the factor matrices
+          * CP: Run 20 CP iterations and use that decomposition as initial
+          Parafac2 tensor (QR on the evolving mode to split into projection
+          and blueprint matrices)
+          * from_checkpoint: Load the last iteration in the specified
+          checkpoint file (alternatively, just the path to the decomposition file)
+          * Precomputed: Use already existing Parafac2 tensor to initialise
+          the decomposition. 
+    logger: list(Logger) (optional, default=None)
+        List of loggers, each logger should implement a ``log`` method
+        that takes a decomposer as input and a ``write_to_hdf5_group``
+        method that stores the log in a hdf5 group. See 
+        ``tenkit.logging.BaseLogger`` for interface.
+    checkpoint_frequency: int (optional, default=None)
+        How often the decomposer should store the decomposition and
+        logs to disk. If None or negative, will only
+        checkpoint the last iteration. 
+    checkpoint_path: str or Path (optional, default=None)
+        Where to store the log HDF5 file. If None, then the checkpoints
+        and logs are not stored to disk.
+    print_frequency: int (optional, default=None)
+        How often convergence information should be printed in the terminal.
+        None and negative values leads to no printing.
+    cp_updates_per_it: int (optional, default=5)
+        Number of CP iterations to run between each projection matrix update.
+    non_negativity_constraints: list(bool) (optional, default=None)
+        If nth element in the list is True, the nth mode is constrained to be
+        non-negative. If None, no modes are constrained.
+        Note: The evolving mode cannot be constrained. 
+    ridge_penalties: list(float) (optional, default=None)
+        Regularisation parameters. The loss is regularised such that
+
+        .. math::
+
+            L_{reg} = L + \sum_i \lambda_i ||U_i||_F^2
+
+        Where :math:`L_{reg}` is the regularised loss, :math:`L` is the unregularised
+        loss, :math:`\lambda_i` is the ith element in ``ridge_penalites`` and :math:`U_i`
+        is the ith factor matrix (or blueprint factor matrix for the evolving mode). 
+        If None, no modes are regularised.
+    orthonormality_constraints: list(bool) (optional, default=None)
+        If nth element in the list is True, the nth mode is constrained to be
+        orthonormal. If None, no modes are constrained. Note: all modes should not be
+        orhtonormal and the evolving mode cannot be constrained. 
+    """
+    def __init__(
+        self,
+        rank,
+        max_its=1000, 
+        convergence_tol=1e-6, 
+        init='random',
+        loggers=None,
+        checkpoint_frequency=None,
+        checkpoint_path=None,
+        print_frequency=10,
+        cp_updates_per_it=5,
+        non_negativity_constraints=None,
+        ridge_penalties=None,
+        orthonormality_constraints=None,
+    ):
+        super().__init__(
+            rank,
+            max_its=max_its,
+            convergence_tol=convergence_tol,
+            init=init,
+            loggers=loggers,
+            checkpoint_frequency=checkpoint_frequency,
+            checkpoint_path=checkpoint_path,
+            print_frequency=print_frequency,
+        )
+        self.non_negativity_constraints = non_negativity_constraints
+        if self.non_negativity_constraints is None:
+            self.non_negativity_constraints = [False, False, False]
+        if self.non_negativity_constraints[1]:
+            warnings.warn(
+                "Non negativity constraints on the evolving (second) mode will only"
+                " be imposed on the blueprint matrix, not the evolving components.",
+                RuntimeWarning
+            )
+
+        self.cp_updates_per_it = cp_updates_per_it
+        self.ridge_penalties = ridge_penalties
+        self.orthonormality_constraints = orthonormality_constraints
+
+    def _init_fit(self, X, max_its, initial_decomposition):
+        super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
+        self.prev_loss = self.loss
+        self._rel_function_change = np.inf
+
+    def load_checkpoint(self, checkpoint_path, load_it=None):
+        super().load_checkpoint(checkpoint_path, load_it=load_it)
+        self._rel_function_change = np.inf
+
+    def _prepare_cp_decomposer(self):
+        self.cp_decomposition = decompositions.KruskalTensor([self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C])
+        self.cp_decomposer = cp.CP_ALS(
+            self.rank,
+            max_its=np.inf, 
+            convergence_tol=0,
+            print_frequency=-1, 
+            non_negativity_constraints=self.non_negativity_constraints,
+            ridge_penalties=self.ridge_penalties,
+            orthonormality_constraints=self.orthonormality_constraints,
+            init='precomputed'
+        )
+        self.cp_decomposer._init_fit(X=self.projected_X, max_its=np.inf, initial_decomposition=self.cp_decomposition)
+
+    def _fit(self):
+
+        self._prepare_cp_decomposer()
+        # The decomposition can have been changed since the last iteration
+        self.prev_loss = self.loss
+        first_iteration = self.current_iteration
+        for _ in range(self.max_its - self.current_iteration):
+            if abs(self._rel_function_change) < self.convergence_tol:
+                break
+
+            self._update_parafac2_factors()
+            self._update_convergence()
+
+            if self.print_frequency > 0 and self.current_iteration % self.print_frequency == 0:
+                print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
+                      f'improvement is {self._rel_function_change:g}')
+
+            self._after_fit_iteration()
+
+        self._after_fit(first_iteration)
+
+    def _update_convergence(self):
+        loss = self.loss
+        self._rel_function_change = (self.prev_loss - loss)/self.prev_loss
+        self.prev_loss = loss
+
+    def _update_parafac2_factors(self):
+        #print('Before projection update') 
+        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
+        self._update_projection_matrices()
+
+        #print('Before ALS update') 
+        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
+
+        self.cp_decomposer.set_target(self.projected_X)
+        for _ in range(self.cp_updates_per_it):
+            self.cp_decomposer._update_als_factors()
+        self.decomposition.blueprint_B[...] *= self.cp_decomposer.weights
+        self.cp_decomposition.weights = self.cp_decomposition.weights*0 + 1
+        #print('After iteration') 
+        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
+        # from pdb import set_trace; set_trace()
+
+    @property
+    def loss(self):
+        loss = self.SSE
+        if self.ridge_penalties is not None:
+            factor_matrices = [self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C]
+            for factor, penalty in zip(factor_matrices, self.ridge_penalties):
+                loss += penalty*np.linalg.norm(factor)**2
+        return loss
diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index b89d214..890dc17 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -1,226 +1,226 @@
-import numpy as np
-from copy import deepcopy
-from . import base
-
-
-def flip_factors(factor_matrices):
-    factor_matrices = deepcopy(factor_matrices)
-    signs = []
-    for i, factor in enumerate(factor_matrices):
-        sign = np.sign(np.mean(np.sign(factor), axis=0))
-
-        # Resolve zero-signs so they are equal to sign of first nonzero element
-        for k, s in enumerate(sign):
-            if s == 0:
-                sign[k] = _find_first_nonzero_sign(factor[:, k])
-
-        factor_matrices[i] *= sign
-        signs.append(sign)
-    return factor_matrices, signs
-
-
-def get_pca_loadings(Y, rank):
-    """Returns the pca loadings of the Y matrix.
-    """
-    U, S, Vh = np.linalg.svd(Y, full_matrices=False)
-    A = (Vh.T @ np.diag(S))[:, :rank]
-    return A
-
-
-
-
-def create_random_factors(sizes, rank):
-    factors = [np.random.randn(size, rank) for size in sizes]
-    factors, norms = normalize_factors(factors)
-    return factors, norms
-
-
-def create_data(sizes, rank, noise_factor=0):
-    factors, norms = create_random_factors(sizes=sizes, rank=rank)
-    tensor = base.ktensor(*tuple(factors))
-
-    noise = np.random.randn(*sizes)
-    noise /= np.linalg.norm(noise)
-    noise *= np.linalg.norm(tensor)
-
-    tensor += noise_factor * noise
-    return tensor, factors, norms, noise
-
-
-def create_random_uniform_factors(sizes, rank):
-    factors = [np.random.uniform(size=(size, rank)) for size in sizes]
-    factors, norms = normalize_factors(factors)
-    return factors, norms
-
-
-def create_non_negative_data(sizes, rank, noise_factor=0):
-    factors, norms = create_random_uniform_factors(sizes=sizes, rank=rank)
-    tensor = base.ktensor(*tuple(factors))
-
-    noise = np.random.randn(*sizes)
-    noise /= np.linalg.norm(noise)
-    noise *= np.linalg.norm(tensor)
-
-    tensor += noise_factor * noise
-    return tensor, factors, norms, noise
-
-
-def permute_factors(permutation, factors):
-    return [factor[:, permutation] for factor in factors]
-
-
-def permute_factors_and_weights(permutation, factors, weights):
-    permuted_factors = [factor[:, permutation] for factor in factors]
-    permuted_weights = weights[list(permutation)]
-    return permuted_factors, permuted_weights
-
-
-def normalize_factor(factor, eps=1e-15):
-    """Normalizes the columns of a factor matrix. 
-    
-    Parameters:
-    -----------
-    factor: np.ndarray
-        Factor matrix to normalize.
-    eps: float
-        Epsilon used to prevent division by zero.
-
-    Returns:
-    --------
-    np.ndarray:
-        Matrix where the columns are normalized to length one.
-    np.ndarray:
-        Norms of the columns before normalization.
-    """
-    norms = np.linalg.norm(factor, axis=0, keepdims=True)
-    return factor / (norms + eps), norms
-
-
-def normalize_factors(factors):
-    """Normalizes the columns of each element in list of factors
-    
-    Parameters:
-    -----------
-    factor: list of np.ndarray
-        List containing factor matrices to normalize.
-
-    Returns:
-    --------
-    list of np.ndarray:
-        List containing matrices where the columns are normalized 
-        to length one.
-    list of np.ndarray:
-        List containing the norms of the columns from before 
-        normalization.
-    """
-    normalized_factors = []
-    norms = []
-
-    for factor in factors:
-        normalized_factor, norm = normalize_factor(factor)
-        normalized_factors.append(normalized_factor)
-        norms.append(norm)
-
-    return normalized_factors, norms
-
-
-def _find_first_nonzero_sign(factor):
-    """Returns the sign of the first nonzero element of `factor`
-    """
-    sign = 0
-    for el in factor:
-        if sign != 0:
-            break
-        sign = np.sign(el)
-
-    return sign
-
-
-def prepare_for_comparison(factors):
-    """Normalize factors and flip the signs.
-
-    This normalization makes it easier to compare the results.
-    TODO: more details.
-    """
-    normalized_factors, norms = normalize_factors(factors)
-    signs = []
-    for i, factor in enumerate(normalized_factors):
-        sign = np.sign(np.mean(np.sign(factor), axis=0))
-
-        # Resolve zero-signs so they are equal to sign of first nonzero element
-        for k, s in enumerate(sign):
-            if s == 0:
-                sign[k] = _find_first_nonzero_sign(factor[:, k])
-
-        normalized_factors[i] *= sign
-        signs.append(sign)
-    return normalized_factors, signs, norms
-
-
-def get_signs(factor_matrix, X):
-    """Find the correct signs of the factor matrix.
-    If data matrix is not passed, then the sign is set so the factor mean is positive.
-    If the data matrix is passed, then the sign is set so the factors are positively
-    correlated with the data matrix.
-
-    Arguments
-    ---------
-    factor_matrix : np.ndarray
-        Factor matrix with unknown sign
-    X : np.ndarray
-        Data matrix
-
-    Returns
-    -------
-    sign : int
-    sign_weight : float
-    """
-    if X is None:
-        sign_weight = factor_matrix.sum(axis=0)
-        sign_weight[sign_weight == 0] = 1
-        return np.sign(sign_weight), sign_weight
-
-    X_described_by_factors = np.linalg.lstsq(factor_matrix, X)[0]
-    sign_weight = np.sum(
-        np.sign(X_described_by_factors) * X_described_by_factors**2,
-        axis=1
-    )
-
-    sign = np.sign(sign_weight)
-    sign[sign == 0] = 1
-    return sign, sign_weight
-    
-def signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor, data_driven=True):
-    fixed_evolving_factor = evolving_factor.copy()
-    fixed_evolve_over_factor = evolve_over_factor.copy()
-    for k in range(len(evolving_factor)):
-        signs = get_signs(data_tensor[k], evolving_factor[k], data_driven=data_driven)[0]
-        
-        fixed_evolving_factor[k] *= signs
-        fixed_evolve_over_factor[k] *= signs
-    
-    return fixed_evolving_factor, fixed_evolve_over_factor
-
-def signfix_normal_factors(data_tensor, fixing_factors, flipping_factors, data_driven=True):
-    unfolded_data_tensor = data_tensor.reshape(data_tensor.shape[0], -1)
-    signs = get_signs(unfolded_data_tensor, fixing_factors, data_driven)[0]
-    
-    return fixing_factors*signs[np.newaxis], flipping_factors*signs[np.newaxis]
-
-def fix_signs_evolving_tensor(evolving_tensor, data_tensor):
-    evolving_factor = evolving_tensor.B
-    evolve_over_factor = evolving_tensor.C
-
-    fixed_evolving_factor, fixed_evolve_over_factor = signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor)
-    
-    fixed_evolving_tensor = deepcopy(evolving_tensor)
-
-    fixed_evolving_tensor._B = fixed_evolving_factor
-    fixed_evolving_tensor._C = fixed_evolve_over_factor
-    return fixed_evolving_tensor
-
-def iter_checkpoints(h5_checkpoint_file):
-    groupnames = [name for name in h5_checkpoint_file if name.startswith('checkpoint')]
-    for groupname in sorted(groupnames, key=lambda name: int(name.split('_')[-1])):
-        yield h5_checkpoint_file[groupname]
+import numpy as np
+from copy import deepcopy
+from . import base
+
+
+def flip_factors(factor_matrices):
+    factor_matrices = deepcopy(factor_matrices)
+    signs = []
+    for i, factor in enumerate(factor_matrices):
+        sign = np.sign(np.mean(np.sign(factor), axis=0))
+
+        # Resolve zero-signs so they are equal to sign of first nonzero element
+        for k, s in enumerate(sign):
+            if s == 0:
+                sign[k] = _find_first_nonzero_sign(factor[:, k])
+
+        factor_matrices[i] *= sign
+        signs.append(sign)
+    return factor_matrices, signs
+
+
+def get_pca_loadings(Y, rank):
+    """Returns the pca loadings of the Y matrix.
+    """
+    U, S, Vh = np.linalg.svd(Y, full_matrices=False)
+    A = (Vh.T @ np.diag(S))[:, :rank]
+    return A
+
+
+
+
+def create_random_factors(sizes, rank):
+    factors = [np.random.randn(size, rank) for size in sizes]
+    factors, norms = normalize_factors(factors)
+    return factors, norms
+
+
+def create_data(sizes, rank, noise_factor=0):
+    factors, norms = create_random_factors(sizes=sizes, rank=rank)
+    tensor = base.ktensor(*tuple(factors))
+
+    noise = np.random.randn(*sizes)
+    noise /= np.linalg.norm(noise)
+    noise *= np.linalg.norm(tensor)
+
+    tensor += noise_factor * noise
+    return tensor, factors, norms, noise
+
+
+def create_random_uniform_factors(sizes, rank):
+    factors = [np.random.uniform(size=(size, rank)) for size in sizes]
+    factors, norms = normalize_factors(factors)
+    return factors, norms
+
+
+def create_non_negative_data(sizes, rank, noise_factor=0):
+    factors, norms = create_random_uniform_factors(sizes=sizes, rank=rank)
+    tensor = base.ktensor(*tuple(factors))
+
+    noise = np.random.randn(*sizes)
+    noise /= np.linalg.norm(noise)
+    noise *= np.linalg.norm(tensor)
+
+    tensor += noise_factor * noise
+    return tensor, factors, norms, noise
+
+
+def permute_factors(permutation, factors):
+    return [factor[:, permutation] for factor in factors]
+
+
+def permute_factors_and_weights(permutation, factors, weights):
+    permuted_factors = [factor[:, permutation] for factor in factors]
+    permuted_weights = weights[list(permutation)]
+    return permuted_factors, permuted_weights
+
+
+def normalize_factor(factor, eps=1e-15):
+    """Normalizes the columns of a factor matrix. 
+    
+    Parameters:
+    -----------
+    factor: np.ndarray
+        Factor matrix to normalize.
+    eps: float
+        Epsilon used to prevent division by zero.
+
+    Returns:
+    --------
+    np.ndarray:
+        Matrix where the columns are normalized to length one.
+    np.ndarray:
+        Norms of the columns before normalization.
+    """
+    norms = np.linalg.norm(factor, axis=0, keepdims=True)
+    return factor / (norms + eps), norms
+
+
+def normalize_factors(factors):
+    """Normalizes the columns of each element in list of factors
+    
+    Parameters:
+    -----------
+    factor: list of np.ndarray
+        List containing factor matrices to normalize.
+
+    Returns:
+    --------
+    list of np.ndarray:
+        List containing matrices where the columns are normalized 
+        to length one.
+    list of np.ndarray:
+        List containing the norms of the columns from before 
+        normalization.
+    """
+    normalized_factors = []
+    norms = []
+
+    for factor in factors:
+        normalized_factor, norm = normalize_factor(factor)
+        normalized_factors.append(normalized_factor)
+        norms.append(norm)
+
+    return normalized_factors, norms
+
+
+def _find_first_nonzero_sign(factor):
+    """Returns the sign of the first nonzero element of `factor`
+    """
+    sign = 0
+    for el in factor:
+        if sign != 0:
+            break
+        sign = np.sign(el)
+
+    return sign
+
+
+def prepare_for_comparison(factors):
+    """Normalize factors and flip the signs.
+
+    This normalization makes it easier to compare the results.
+    TODO: more details.
+    """
+    normalized_factors, norms = normalize_factors(factors)
+    signs = []
+    for i, factor in enumerate(normalized_factors):
+        sign = np.sign(np.mean(np.sign(factor), axis=0))
+
+        # Resolve zero-signs so they are equal to sign of first nonzero element
+        for k, s in enumerate(sign):
+            if s == 0:
+                sign[k] = _find_first_nonzero_sign(factor[:, k])
+
+        normalized_factors[i] *= sign
+        signs.append(sign)
+    return normalized_factors, signs, norms
+
+
+def get_signs(factor_matrix, X):
+    """Find the correct signs of the factor matrix.
+    If data matrix is not passed, then the sign is set so the factor mean is positive.
+    If the data matrix is passed, then the sign is set so the factors are positively
+    correlated with the data matrix.
+
+    Arguments
+    ---------
+    factor_matrix : np.ndarray
+        Factor matrix with unknown sign
+    X : np.ndarray
+        Data matrix
+
+    Returns
+    -------
+    sign : int
+    sign_weight : float
+    """
+    if X is None:
+        sign_weight = factor_matrix.sum(axis=0)
+        sign_weight[sign_weight == 0] = 1
+        return np.sign(sign_weight), sign_weight
+
+    X_described_by_factors = np.linalg.lstsq(factor_matrix, X)[0]
+    sign_weight = np.sum(
+        np.sign(X_described_by_factors) * X_described_by_factors**2,
+        axis=1
+    )
+
+    sign = np.sign(sign_weight)
+    sign[sign == 0] = 1
+    return sign, sign_weight
+    
+def signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor, data_driven=True):
+    fixed_evolving_factor = evolving_factor.copy()
+    fixed_evolve_over_factor = evolve_over_factor.copy()
+    for k in range(len(evolving_factor)):
+        signs = get_signs(data_tensor[k], evolving_factor[k], data_driven=data_driven)[0]
+        
+        fixed_evolving_factor[k] *= signs
+        fixed_evolve_over_factor[k] *= signs
+    
+    return fixed_evolving_factor, fixed_evolve_over_factor
+
+def signfix_normal_factors(data_tensor, fixing_factors, flipping_factors, data_driven=True):
+    unfolded_data_tensor = data_tensor.reshape(data_tensor.shape[0], -1)
+    signs = get_signs(unfolded_data_tensor, fixing_factors, data_driven)[0]
+    
+    return fixing_factors*signs[np.newaxis], flipping_factors*signs[np.newaxis]
+
+def fix_signs_evolving_tensor(evolving_tensor, data_tensor):
+    evolving_factor = evolving_tensor.B
+    evolve_over_factor = evolving_tensor.C
+
+    fixed_evolving_factor, fixed_evolve_over_factor = signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor)
+    
+    fixed_evolving_tensor = deepcopy(evolving_tensor)
+
+    fixed_evolving_tensor._B = fixed_evolving_factor
+    fixed_evolving_tensor._C = fixed_evolve_over_factor
+    return fixed_evolving_tensor
+
+def iter_checkpoints(h5_checkpoint_file):
+    groupnames = [name for name in h5_checkpoint_file if name.startswith('checkpoint')]
+    for groupname in sorted(groupnames, key=lambda name: int(name.split('_')[-1])):
+        yield h5_checkpoint_file[groupname]
     
\ No newline at end of file
-- 
2.43.0


From eb4b67720358bddeae0fb332a3da790f8de6dfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:49 +0000
Subject: [PATCH 33/36] fix: keep the list of checkpoints of long fits in a
 file format that can hold it

The attributes of the default file format are limited to 64 KB, so the fit raised when it stored checkpoint 8183.
---
 src/tenkit/decomposition/base_decomposer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index f41062f..03e5ece 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -179,8 +179,9 @@ class BaseDecomposer(ABC):
     def store_checkpoint(self):
         if not os.path.exists(self.checkpoint_path):
             # A process that dies while it writes the first checkpoint must not leave a file that can't be opened
+            # (the list of checkpoints does not fit in the attributes of older file formats if there are thousands of them)
             new_path = f'{self.checkpoint_path}.new'
-            h5py.File(new_path, 'w').close()
+            h5py.File(new_path, 'w', libver=('v108', 'latest')).close()
             os.replace(new_path, self.checkpoint_path)
 
         with h5py.File(self.checkpoint_path, 'a') as h5:
-- 
2.43.0


From 993812a27420fbf2b0232b6f8ab90997c83c0d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:38 +0000
Subject: [PATCH 34/36] fix: SVD start of PARAFAC2 for data of small integers

The products were computed in the integer type of the data, where they overflow (bytes) or are logical (bool).
---
 src/tenkit/decomposition/parafac2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 3ce408b..6607332 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -111,7 +111,8 @@ class BaseParafac2(BaseDecomposer):
 
         Y = np.zeros([I, I])
         for k in range(K):
-            Y += self.X[k] @ self.X[k].T
+            X_k = np.asarray(self.X[k], dtype=float)   # products of small integers can overflow
+            Y += X_k @ X_k.T
 
         A = get_pca_loadings(Y, self.rank)
         blueprint_B = np.identity(self.rank)
-- 
2.43.0


From b0cfa13693219e23db8230827e4fde7b810b1b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:40 +0000
Subject: [PATCH 35/36] fix: fits from integer factor matrices, and normalising
 those, truncated to integers or raised

Factor matrices are updated in place, so decompositions keep floating point arrays.
---
 src/tenkit/decomposition/decompositions.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index cae43cd..07f99b7 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -9,6 +9,14 @@ from .. import utils
 __all__ = ['KruskalTensor', 'EvolvingTensor', 'Parafac2Tensor']
 
 
+def _as_inexact(factor_matrix):
+    """Factor matrices are updated in place with real numbers, which integer arrays can't hold.
+    """
+    if np.issubdtype(factor_matrix.dtype, np.inexact):
+        return factor_matrix
+    return factor_matrix.astype(float)
+
+
 class BaseDecomposedTensor(ABC):
     @abstractmethod
     def __init__(self):
@@ -116,7 +124,7 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'has {factor_matrix.shape[1]} columns.'
                 )
 
-        self.factor_matrices = factor_matrices
+        self.factor_matrices = [_as_inexact(factor_matrix) for factor_matrix in factor_matrices]
         if weights is None:
             weights = np.ones(self.rank)
         else:
@@ -603,11 +611,11 @@ class Parafac2Tensor(EvolvingTensor):
         projection_matrices : list[np.ndarray]
         """
         self.rank = A.shape[1]
-        self._A = A
-        self._blueprint_B = blueprint_B
-        self._C = C
-        self._projection_matrices = tuple(projection_matrices)
-        self._B = ProjectedFactor(blueprint_B, self._projection_matrices)
+        self._A = _as_inexact(A)
+        self._blueprint_B = _as_inexact(blueprint_B)
+        self._C = _as_inexact(C)
+        self._projection_matrices = tuple(_as_inexact(projection_matrix) for projection_matrix in projection_matrices)
+        self._B = ProjectedFactor(self._blueprint_B, self._projection_matrices)
 
 
         self.all_same_size = self._check_all_same_size(projection_matrices)
-- 
2.43.0


From b7ee7703a97fecb7608e9902fff61c0a1b48b096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:52 +0000
Subject: [PATCH 36/36] fix: sign flips of factor matrices of integers

The integer arrays were multiplied in place with floating point signs, which raises.
---
 src/tenkit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index 890dc17..5dc354f 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -14,7 +14,7 @@ def flip_factors(factor_matrices):
             if s == 0:
                 sign[k] = _find_first_nonzero_sign(factor[:, k])
 
-        factor_matrices[i] *= sign
+        factor_matrices[i] = factor*sign
         signs.append(sign)
     return factor_matrices, signs
 
-- 
2.43.0

