From 977ac9c1aeabf000b349e05b47256bb8d18c8a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 01/46] fix: mark as maximal only cliques that no vertex
 extends when a size cutoff is given

---
 inflation/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/utils.py b/inflation/utils.py
index bf1fee2..a8b0ce4 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -203,14 +203,14 @@ def all_and_maximal_cliques(adjmat: np.ndarray,
     nbrs_mat = np.triu(adjmat, k=1)
     initial_cnbrs = [np.flatnonzero(nbrs_mat[u]).tolist() for u in verts]
     nbrs = list(map(set, initial_cnbrs))
+    all_nbrs_mat = np.logical_or(nbrs_mat, nbrs_mat.T)
     queue = deque(zip(initial_cliques, initial_cnbrs))
     there_is_a_cutoff = (max_n <= 0)
     while queue:
         base, cnbrs = queue.popleft()
         all_cliques.append(base)
         if isolate_maximal and not len(cnbrs):
-            base_as_set = set(base)
-            if not any(base_as_set.issubset(superbase) for (superbase, _) in queue):
+            if not all_nbrs_mat[base].all(axis=0).any():
                 maximal_cliques.append(base)
         elif there_is_a_cutoff or len(base) < max_n:
             for i, u in enumerate(cnbrs):
-- 
2.43.0


From e61717025d37ceb4ab8140e8d483d695eed814dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 02/46] fix: take only commutation-palindromic moments as
 non-negative, not symmetry-Hermitian ones

---
 inflation/sdp/monomial_classes.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/inflation/sdp/monomial_classes.py b/inflation/sdp/monomial_classes.py
index 2e553cf..bc1963a 100644
--- a/inflation/sdp/monomial_classes.py
+++ b/inflation/sdp/monomial_classes.py
@@ -85,9 +85,16 @@ class InternalAtomicMonomialSDP(InternalAtomicMonomialLP):
 
     @cached_property
     def is_hermitian(self) -> bool:
-        """Whether the atomic monomial is equivalent to its conjugate
-         under inflation symmetries and commutation."""
-        return np.array_equal(self.as_lexmon, self.conjugate_lexmon)
+        """Whether the atomic monomial is equal to its conjugate under
+        commutation. Being mapped to its conjugate by an inflation symmetry
+        only implies that the expectation value is real, whereas the moments
+        for which this property is True are taken to be non-negative."""
+        if self.is_all_commuting:
+            return True
+        return np.array_equal(
+            self.as_lexmon,
+            self.context._to_canonical_memoized_1d(
+                self.as_lexmon[::-1], apply_only_commutations=True))
 
     @property
     def dagger(self):
-- 
2.43.0


From acf51f3c3cedb64b8df132ec8224f82c65961503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 03/46] fix: resolve P[...] names that are not stored and
 operator names containing do(...)

---
 inflation/lp/InflationLP.py   | 4 +++-
 inflation/sdp/InflationSDP.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index cdffe12..5ee3dae 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1193,8 +1193,10 @@ class InflationLP(object):
             return self.atom_from_name[factor_string].as_2d_array
         except (KeyError, AttributeError):
             pass
+        if factor_string in self.op_from_name:
+            return self._interpret_operator_string(factor_string)[np.newaxis]
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
-                or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
+                or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
             ("Monomial names must be between < > signs, or in conditional " +
              f"probability form, whereas input received was {factor_string}")
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f5eb1f4..53ba598 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1695,8 +1695,10 @@ class InflationSDP:
             return self.atom_from_name[factor_string].as_2d_array
         except (KeyError, AttributeError):
             pass
+        if factor_string in self.op_from_name:
+            return self._interpret_operator_string(factor_string)[np.newaxis]
         assert ((factor_string[0] == "<" and factor_string[-1] == ">")
-                or (factor_string[0:1] == "P[" and factor_string[-1] == "]")
+                or (factor_string[0:2] == "P[" and factor_string[-1] == "]")
                 or set(factor_string).isdisjoint(set("| "))), \
             ("Monomial names must be between < > signs, or in conditional " +
              f"probability form, whereas input received was {factor_string}")
-- 
2.43.0


From 46a93ce8107da237c07b1df099c094b990872834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 04/46] fix: accept an explicit generating set of a single
 array

---
 inflation/sdp/InflationSDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 53ba598..6360950 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1113,11 +1113,11 @@ class InflationSDP:
                 # This is the standard specification for the helper
                 columns = self._build_cols_from_specs(column_specification)
             elif type(column_specification[0]) in {np.ndarray}:
-                if len(np.array(column_specification[1]).shape) == 2:
+                if len(np.array(column_specification[-1]).shape) == 2:
                     # This is the 2d encoding, convert it to lexicographic repr
                     columns = [self.mon_to_lexrepr(mon)
                                for mon in column_specification]
-                elif len(np.array(column_specification[1]).shape) == 1:
+                elif len(np.array(column_specification[-1]).shape) == 1:
                     # This is the 1d encoding, make sure the dtype is correct
                     # for compatibility with numba
                     columns = [np.array(mon, dtype=np.intc)
-- 
2.43.0


From b1d0fbd9d4cae8e90777fa20c5ca99e49f74013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 05/46] fix: read a product of moment names as the product of
 those moments

---
 inflation/lp/InflationLP.py     | 14 ++++++++++++++
 inflation/sdp/InflationSDP.py   | 15 +++++++++++++++
 inflation/sdp/monomial_utils.py | 24 ++++++++++++++++++++++++
 3 files changed, 53 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 5ee3dae..bcec211 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -25,6 +25,7 @@ from .numbafied import (nb_outer_bitwise_or,
                         nb_outer_bitwise_xor)
 from .writer_utils import write_to_lp, write_to_mps
 from ..sdp.fast_npa import nb_is_knowable as is_knowable
+from ..sdp.monomial_utils import factors_from_name
 from ..sdp.quantum_tools import flatten_symbolic_powers
 from ..utils import clean_coefficients, eprint, partsextractor, \
     expand_sparse_vec
@@ -1098,6 +1099,10 @@ class InflationLP(object):
             try:
                 return self.monomial_from_name[mon]
             except KeyError:
+                if self._is_product_of_moments(mon):
+                    return self._monomial_from_atoms(
+                        [atom for factor in factors_from_name(mon)
+                         for atom in self._sanitise_monomial(factor).factors])
                 print(f"As of now we only recognize \n{list(self.monomial_from_name.keys())}")
                 return self._sanitise_monomial(self._interpret_name(mon))
         elif isinstance(mon, Real):
@@ -1174,6 +1179,15 @@ class InflationLP(object):
         return np.vstack(tuple(self._interpret_atomic_string(factor_string)
                                for factor_string in factors))
 
+    def _is_product_of_moments(self, name: str) -> bool:
+        """Whether a name that is not stored is a product of moments (as
+        opposed to a product of operators), such as ``P[B=0]*P[A=0]^2``."""
+        factors = factors_from_name(name)
+        return (len(factors) > 1
+                and all(factor not in self.op_from_name
+                        and factor[-1:] in {">", "]", ")"}
+                        for factor in factors))
+
     def _interpret_atomic_string(self, factor_string: str) -> np.ndarray:
         """Build a 2D array encoding of a moment that cannot be further
         factorised into products of other moments.
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 6360950..7f74dd5 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -25,6 +25,7 @@ from .fast_npa import (reverse_mon,
                        to_canonical_1d_internal
                        )
 from .monomial_classes import InternalAtomicMonomialSDP, CompoundMomentSDP
+from .monomial_utils import factors_from_name
 from .quantum_tools import (apply_inflation_symmetries,
                             calculate_momentmatrix_1d_internal,
                             construct_normalization_eqs,
@@ -1562,6 +1563,10 @@ class InflationSDP:
             canon_lexmon = self._to_canonical_memoized_1d(
                 self.mon_to_lexrepr(array))
             return self.Moment_1d(canon_lexmon)
+        elif isinstance(moment, str) and self._is_product_of_moments(moment):
+            return self._monomial_from_atoms(
+                [atom for factor in factors_from_name(moment)
+                 for atom in self._sanitise_moment(factor).factors])
         elif isinstance(moment, (str, sp.core.symbol.Expr)):
             return self._sanitise_moment(self._interpret_name(moment))
         elif isinstance(moment, Real):
@@ -1676,6 +1681,16 @@ class InflationSDP:
         return np.vstack(tuple(self._interpret_atomic_string(factor_string)
                                for factor_string in factors))
 
+    def _is_product_of_moments(self, name: str) -> bool:
+        """Whether a name that is not stored is a product of moments (as
+        opposed to a product of operators), such as ``P[B=0]*P[A=0]^2``."""
+        factors = factors_from_name(name)
+        return (name not in self.monomial_from_name
+                and len(factors) > 1
+                and all(factor not in self.op_from_name
+                        and factor[-1:] in {">", "]", ")"}
+                        for factor in factors))
+
     def _interpret_atomic_string(self, factor_string: str) -> np.ndarray:
         """Build a 2D array encoding of a moment that cannot be further
         factorised into products of other moments.
diff --git a/inflation/sdp/monomial_utils.py b/inflation/sdp/monomial_utils.py
index f3bd8c2..25cb844 100644
--- a/inflation/sdp/monomial_utils.py
+++ b/inflation/sdp/monomial_utils.py
@@ -82,6 +82,30 @@ def name_from_atom_names(atom_names: List[str]) -> str:
         return "1"
 
 
+def factors_from_name(name: str) -> List[str]:
+    """Split the name of a product of monomials into the names of its factors,
+    repeated according to their powers.
+
+    Parameters
+    ----------
+    name : str
+        The name of a product of monomials, such as ``P[A=0]^2*P[B=0]``.
+
+    Returns
+    -------
+    List[str]
+        The names of the factors.
+    """
+    factors = []
+    for factor in name.split("*"):
+        powered = re.fullmatch(r"(.*[>\])])\^(\d+)", factor)
+        if powered:
+            factors.extend([powered.group(1)] * int(powered.group(2)))
+        else:
+            factors.append(factor)
+    return factors
+
+
 def symbol_from_atom_name(atomic_name: str) -> sympy.core.symbol.Symbol:
     """Create a sympy Symbol for a monomial from its name.
 
-- 
2.43.0


From b0e785c873651daca3ae7bcceaf0e196ade48881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 06/46] fix: drop the zero rows of a sparse matrix instead of
 failing on them

---
 inflation/lp/lp_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 8472b45..f4cd3f6 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -26,9 +26,8 @@ def drop_zero_rows(coo_mat: coo_array):
     if len(coo_mat.shape) == 1:
         coo_mat = coo_mat.reshape((1, coo_mat.shape[0]))
     nz_rows, new_row = np.unique(coo_mat.row, return_inverse=True)
-    coo_mat.row = new_row
-    coo_mat = coo_mat.reshape((len(nz_rows), coo_mat.shape[1]))
-    return coo_mat
+    return coo_array((coo_mat.data, (new_row, coo_mat.col)),
+                     shape=(len(nz_rows), coo_mat.shape[1]))
 
 
 def canonical_order(coo_mat: coo_array):
-- 
2.43.0


From f36908660068f96479b9cb391437e4e9d93a4751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 07/46] fix: let solveLP be called without some of its optional
 arguments

---
 inflation/lp/lp_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index f4cd3f6..dae486e 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -123,6 +123,7 @@ def solveLP(objective: Union[coo_array, Dict] = None,
                                       "arguments are of mixed form."
         solver_args.update(convert_dicts(**solver_args))
     solver_args.pop("semiknown_vars", None)
+    solver_args = {k: v for k, v in solver_args.items() if v is not None}
     return solveLP_sparse(**solver_args)
 
 
-- 
2.43.0


From 2da299e23eca44281c3945afd2a007596a89c04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 08/46] fix: solve linear programs that have no inequalities
 and no equalities

---
 inflation/lp/lp_utils.py | 4 ++++
 inflation/utils.py       | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index dae486e..57a778d 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -242,6 +242,10 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
 
             # Initialize constraint matrix
             constraints = vstack((inequalities, equalities))
+            constraints.resize((constraints.shape[0],
+                                max(arg.shape[1] for arg in (
+                                    objective, known_vars, inequalities,
+                                    equalities, lower_bounds, upper_bounds))))
 
             nof_primal_inequalities = inequalities.shape[0]
             nof_primal_equalities = equalities.shape[0]
diff --git a/inflation/utils.py b/inflation/utils.py
index a8b0ce4..9f9d572 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -165,7 +165,8 @@ def vstack(blocks: tuple, format: str = 'coo') -> sps.coo_array:
     elif nof_blocks == 1:
         return non_empty[0]
     else:
-        return sps.coo_array([])
+        return sps.coo_array((0, max((mat.shape[-1] for mat in blocks),
+                                     default=0)))
 
 
 def perm_combiner(old_perms: np.ndarray, new_perms: np.ndarray) -> np.ndarray:
-- 
2.43.0


From d6dcb07318ec4a1ed67af289eb43323e381f5fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 09/46] fix: honour negative lower bounds in the dual
 formulation of linear programs

---
 inflation/lp/lp_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 57a778d..ee5db87 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -344,7 +344,9 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
 
                 # Set constraint bounds corresponding to primal variable bounds
                 if default_non_negative:
-                    bkc = np.broadcast_to(mosek.boundkey.lo, nof_dual_constraints)
+                    bkc = np.repeat(mosek.boundkey.lo, nof_dual_constraints)
+                    # Explicit lower bounds replace the default one
+                    bkc[lower_bounds.col] = mosek.boundkey.fx
                 else:
                     bkc = np.broadcast_to(mosek.boundkey.fx, nof_dual_constraints)
 
-- 
2.43.0


From c8c4c4566c80f0f2e84e0f71d0336b665f8ed38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 10/46] fix: include objective terms over known values in the
 LP certificate

---
 inflation/lp/lp_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index ee5db87..0d9fefd 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -520,10 +520,8 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
             cert_row = [0] * nof_primal_variables
             cert_col = [*range(nof_primal_variables)]
             cert_data = np.zeros((nof_primal_variables,))
-            obj_data = objective.toarray().ravel()
-            objective_unknown_cols = np.setdiff1d(objective.col, known_vars.col)
-            cert_data[objective_unknown_cols] = -obj_data[objective_unknown_cols]
-            cert_data[known_vars.col] = y_values[:nof_known_vars] # Assumes known values coded as equalities
+            cert_data[objective.col] = -objective.data
+            cert_data[known_vars.col] += y_values[:nof_known_vars] # Assumes known values coded as equalities
             if relax_known_vars:
                 cert_data[known_vars.col] += y_values[nof_known_vars:(2*nof_known_vars)]
             sparse_certificate = coo_array((cert_data, (cert_row, cert_col)),
-- 
2.43.0


From 77df877e201075cfe0e2881853ac21eec92cde83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 11/46] fix: leave the objective out of certificates of
 infeasibility in LPs

---
 inflation/lp/lp_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inflation/lp/lp_utils.py b/inflation/lp/lp_utils.py
index 0d9fefd..4277e31 100644
--- a/inflation/lp/lp_utils.py
+++ b/inflation/lp/lp_utils.py
@@ -520,7 +520,8 @@ def solveLP_sparse(objective: coo_array = blank_coo_array,
             cert_row = [0] * nof_primal_variables
             cert_col = [*range(nof_primal_variables)]
             cert_data = np.zeros((nof_primal_variables,))
-            cert_data[objective.col] = -objective.data
+            if success:  # A certificate of infeasibility has no objective
+                cert_data[objective.col] = -objective.data
             cert_data[known_vars.col] += y_values[:nof_known_vars] # Assumes known values coded as equalities
             if relax_known_vars:
                 cert_data[known_vars.col] += y_values[nof_known_vars:(2*nof_known_vars)]
-- 
2.43.0


From f692b5d9a8987202bf0319174351c849b8544320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 12/46] fix: report the dual matrix of the primal SDP
 formulation as positive semidefinite

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index bfa0b4b..90f15a3 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -459,7 +459,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             else:
                 x_values = dict(zip(variables, x_mosek.level()))
                 if mask_matrices:
-                    ymat = G.dual().reshape([mat_dim, mat_dim])
+                    ymat = -G.dual().reshape([mat_dim, mat_dim])
                     xmat = G.level().reshape([mat_dim, mat_dim])
 
             status = M.getProblemStatus()
-- 
2.43.0


From 92fb69a9be829b891f586f2380f3c4222fef6cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 13/46] fix: keep the objective's known terms in the
 certificate of SDPs

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 90f15a3..c45835f 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -513,7 +513,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             if mask_matrices:
                 for x in set(Fi).intersection(known_vars):
                     support = Fi[x].nonzero()
-                    certificate[x] = np.dot(ymat[support], Fi[x][support].toarray().ravel())
+                    certificate[x] += np.dot(ymat[support], Fi[x][support].toarray().ravel())
 
             # + I · b
             if var_inequalities:
-- 
2.43.0


From 2336cc61af60241a3f48b7a808c16899b2b991b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 14/46] fix: report the moment matrix at the solution in the
 dual SDP formulation

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index c45835f..4dcd745 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -353,7 +353,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                     ci  = float(var_objective[x])
                     lhs += ci
                 try:
-                    F = Fi.pop(x)
+                    F = Fi[x]
                     lhs = Expr.add(lhs,
                                    Expr.dot(Z,
                                             scipy_to_mosek(F)))
-- 
2.43.0


From c3bf59b417b7c398d1322efb7a1b171cbd712e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 15/46] fix: leave the objective out of certificates of
 infeasibility in SDPs

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 4dcd745..388892e 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -505,7 +505,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             certificate = {x: 0 for x in known_vars}
 
             # c0(P(a...|x...))
-            if not feas_as_optim:
+            if status_str == "feasible" and not feas_as_optim:
                 for x in set(var_objective).intersection(known_vars):
                     certificate[x] += var_objective[x]
 
-- 
2.43.0


From 6768d731324b23e2075e9ace07488288e8baf5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 16/46] fix: let the smallest eigenvalue be negative when
 moments are non-negative by default

---
 inflation/sdp/sdp_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 388892e..8257e56 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -240,6 +240,11 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
             var_equalities.append({x: 1, x2: -c})
             variables.add(x2)
 
+    if default_non_negative and feas_as_optim and mask_matrices:
+        # The smallest eigenvalue is not a moment: it can have any sign.
+        var_inequalities += [{x: 1} for x in variables if x != lam]
+        default_non_negative = False
+
     # Calculate c0, the constant part of the var_objective.
     c0 = 0. + float(sum([var_objective[x] * known_vars[x]
                          for x in set(var_objective).intersection(known_vars)])
-- 
2.43.0


From 98f261915b6178301b62f9b47a5c9531b1ceaf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:46 +0000
Subject: [PATCH 17/46] fix: do not confuse the smallest eigenvalue with a
 known variable of that name

---
 inflation/sdp/sdp_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 8257e56..cd7107e 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -201,7 +201,7 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                   + " to maximize the smallest eigenvalue of the matrix"
                   + " variable.")
         lam = "lambda"
-        while lam in variables:
+        while lam in variables or lam in known_vars:
             lam += "_"
         variables.add(lam)
         Fi[lam] = -1 * eye(mat_dim).tolil()
-- 
2.43.0


From c4e1fede05d58a4e3b371ec8f5994aace11e36eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 18/46] fix: substitute semiknown moments that are not in the
 moment matrix

---
 inflation/sdp/sdp_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index cd7107e..3954ec1 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -215,8 +215,8 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
         # For the semiknown constraint x_i = a_i * x_j, add to the Fi of x_j
         # the expression a_i*(Fi of x_i).
         for x, (c, x2) in semiknown_vars.items():
-            if mask_matrices:
-                val = Fi.pop(x, 0)
+            if x in Fi:
+                val = Fi.pop(x)
                 Fi[x2] = Fi.get(x2, 0) + c * val
 
             if var_objective and not feas_as_optim:
-- 
2.43.0


From 57434f2b9440cdf4c6a81e32700b9fe57556416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 19/46] fix: hand extra equalities and inequalities of SDPs to
 the solver

---
 inflation/sdp/InflationSDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 7f74dd5..14b7f56 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2175,10 +2175,10 @@ class InflationSDP:
                                          in self.semiknown_moments.items()},
                       "equalities": [{mon.name: coeff
                                           for mon, coeff in eq.items()}
-                                     for eq in self.minimal_equalities],
+                                     for eq in self.moment_equalities],
                       "inequalities": [{mon.name: coeff
                                         for mon, coeff in ineq.items()}
-                                       for ineq in self.minimal_inequalities]
+                                       for ineq in self.moment_inequalities]
                       }
         # Add the constant 1 in case of unnormalized problems removed it
         solverargs["known_vars"][self.constant_term_name] = 1.
-- 
2.43.0


From 95a7546964ead2417ddfd409dd5a0f66748f759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 20/46] fix: substitute semiknown moments in the objective of
 SDPs

---
 inflation/sdp/InflationSDP.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 14b7f56..ad213ed 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -2050,11 +2050,10 @@ class InflationSDP:
                                     ).intersection(
                                         self._processed_objective.keys())
         for mon in semiknowns_to_process:
-            coeff = self._processed_objective[mon]
-            for (subs_coeff, subs) in self.semiknown_moments[mon]:
-                self._processed_objective[subs] = \
-                    self._processed_objective.get(subs, 0) + coeff * subs_coeff
-                del self._processed_objective[mon]
+            coeff = self._processed_objective.pop(mon)
+            subs_coeff, subs = self.semiknown_moments[mon]
+            self._processed_objective[subs] = \
+                self._processed_objective.get(subs, 0) + coeff * subs_coeff
         collect()
 
     def _update_bounds(self, typ: str) -> None:
-- 
2.43.0


From 229970ca804680f258c771a3c40355c8561e7c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 21/46] fix: rebuild the lower bounds of a support whenever
 values or bounds are set (LP)

---
 inflation/lp/InflationLP.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index bcec211..bcc87c0 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -900,6 +900,7 @@ class InflationLP(object):
                 self._reset_objective()
             elif which == "values":
                 self._reset_values()
+                self._cleanup_after_set_values()
             else:
                 raise Exception(f"The attribute {which} is not part of " +
                                 "InflationLP.")
@@ -1363,6 +1364,7 @@ class InflationLP(object):
                                  for mon in self.monomials}
         self.names_to_symbols[self.constant_term_name] = sp.S.One
 
+        self._support_lowerbounds = dict()
         self._set_lowerbounds(None)
         self._set_upperbounds(None)
         self.set_objective(None)
@@ -1687,8 +1689,11 @@ class InflationLP(object):
                                        mon, value in self.known_moments.items()
                                        if not np.isclose(value, 0)]
             for mon in nonzero_known_monomials:
-                self.moment_lowerbounds[mon] = 1.
+                self._support_lowerbounds[mon] = 1.
                 del self.known_moments[mon]
+            for mon in self.known_moments:
+                self._support_lowerbounds.pop(mon, None)
+            self._combine_lowerbounds()
             self.semiknown_moments = dict()
         num_nontrivial_known = len(self.known_moments)
         if self.verbose > 1 and num_nontrivial_known > 1:
@@ -1710,7 +1715,16 @@ class InflationLP(object):
     def _reset_lowerbounds(self) -> None:
         """Reset the list of lower bounds."""
         self._reset_solution()
-        self.moment_lowerbounds = dict()
+        self._stated_lowerbounds = dict()
+        self._combine_lowerbounds()
+
+    def _combine_lowerbounds(self) -> None:
+        """Collect the lower bounds set by the user and, in supports problems,
+        those of the monomials inside the support."""
+        self.moment_lowerbounds = dict(self._stated_lowerbounds)
+        for mon, bound in self._support_lowerbounds.items():
+            self.moment_lowerbounds[mon] = \
+                max(bound, self.moment_lowerbounds.get(mon, bound))
 
     def _reset_upperbounds(self) -> None:
         """Reset the list of upper bounds."""
@@ -1729,6 +1743,8 @@ class InflationLP(object):
         self.known_moments     = dict()
         self.semiknown_moments = dict()
         self.known_moments[self.One] = 1.
+        self._support_lowerbounds = dict()
+        self._combine_lowerbounds()
         self.extra_equalities = []
         self.extra_inequalities = []
         collect()
@@ -2048,7 +2064,8 @@ class InflationLP(object):
                 assert np.isclose(old_bound, lowerbound), \
                     (f"Contradiction: Cannot set the same monomial {mon} to " +
                      "have different lower bounds.")
-        self.moment_lowerbounds = sanitized_lowerbounds
+        self._stated_lowerbounds = sanitized_lowerbounds
+        self._combine_lowerbounds()
 
     def mon_to_boolvec(self, mon: np.ndarray) -> np.ndarray:
         """Convert a monomial to a boolean vector.
-- 
2.43.0


From b94fef2982f836065e33d1dbb5c7e2e51a008456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 22/46] fix: list extra constraints by name as they currently
 are (LP)

---
 inflation/lp/InflationLP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index bcc87c0..042c766 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1766,12 +1766,12 @@ class InflationLP(object):
     # Preparation for passing to external interfaces                          #
     ###########################################################################
 
-    @cached_property
+    @property
     def moment_equalities_by_name(self):
         """List of dictionaries of moment equalities by name."""
         return self._coo_mat_to_dict(self.sparse_equalities, string_keys=True)
 
-    @cached_property
+    @property
     def moment_inequalities_by_name(self):
         """List of dictionaries of moment inequalities by name."""
         return self._coo_mat_to_dict(self.sparse_inequalities, 
-- 
2.43.0


From 0340e8b0293ee077635cfa96ea8a7c00ead6d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 23/46] fix: set_bounds(None) removes the bounds (SDP)

---
 inflation/sdp/InflationSDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index ad213ed..f9ab90b 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -486,7 +486,7 @@ class InflationSDP:
         assert bound_type in ["up", "lo"], \
             "The 'bound_type' argument should be either 'up' or 'lo'"
         if bounds is None:
-            return
+            bounds = dict()
         # Sanitize list of bounds
         sanitized_bounds = dict()
         for mon, bound in bounds.items():
-- 
2.43.0


From e4dae6f891c5ed2264cf6b1cc7684ea4006d1d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 24/46] fix: work out bounds and objective of an SDP from the
 current values, not the ones seen so far

---
 inflation/sdp/InflationSDP.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f9ab90b..f4ccf94 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -405,6 +405,9 @@ class InflationSDP:
                 self.minimal_equalities.append(eq_dict)
 
         self.minimal_inequalities = []
+        self._stated_upperbounds = dict()
+        self._stated_lowerbounds = dict()
+        self._support_lowerbounds = dict()
         self.moment_upperbounds  = dict()
         self.moment_lowerbounds  = {m: 0. for m in self.hermitian_moments}
 
@@ -500,10 +503,10 @@ class InflationSDP:
                      "have different upper bounds.")
         if bound_type == "up":
             self._reset_upperbounds()
-            self.moment_upperbounds = sanitized_bounds
+            self._stated_upperbounds = sanitized_bounds
         else:
             self._reset_lowerbounds()
-            self.moment_lowerbounds.update(sanitized_bounds)
+            self._stated_lowerbounds = sanitized_bounds
         self._update_bounds(bound_type)
 
     @cached_property
@@ -1312,6 +1315,7 @@ class InflationSDP:
         # Write file according to the extension
         if self.verbose > 0:
             print("Writing the SDP program to", filename)
+        self._cleanup_after_set_values()
         if extension == "dat-s":
             write_to_sdpa(self, filename)
         elif extension == "csv":
@@ -1980,8 +1984,10 @@ class InflationSDP:
                                        mon, value in self.known_moments.items()
                                        if not np.isclose(value, 0)]
             for mon in nonzero_known_monomials:
-                self.moment_lowerbounds[mon] = 1.
+                self._support_lowerbounds[mon] = 1.
                 del self.known_moments[mon]
+            for mon in self.known_moments:
+                self._support_lowerbounds.pop(mon, None)
             self.semiknown_moments = dict()
 
         self._update_bounds("lo")
@@ -2005,12 +2011,13 @@ class InflationSDP:
     def _reset_lowerbounds(self) -> None:
         """Reset the list of lower bounds."""
         self._reset_solution()
-        self.moment_lowerbounds = {m: 0. for m in self.hermitian_moments}
+        self._stated_lowerbounds = dict()
         self._update_bounds("lo")
 
     def _reset_upperbounds(self) -> None:
         """Reset the list of upper bounds."""
         self._reset_solution()
+        self._stated_upperbounds = dict()
         self.moment_upperbounds = dict()
 
     def _reset_objective(self) -> None:
@@ -2028,6 +2035,7 @@ class InflationSDP:
         if self.momentmatrix_has_a_zero:
             self.known_moments[self.Zero] = 0.
         self.known_moments[self.One] = 1.
+        self._support_lowerbounds = dict()
         self.extra_equalities = []
         self.extra_inequalities = []
         collect()
@@ -2066,10 +2074,14 @@ class InflationSDP:
             Specification of upper (`"up"`) or lower (`"lo"`) bounds.
         """
         if typ == "up":
-            bounds = self.moment_upperbounds
+            bounds = self.moment_upperbounds = self._stated_upperbounds.copy()
             dir = "upp"
         elif typ == "lo":
-            bounds = self.moment_lowerbounds
+            bounds = {m: 0. for m in self.hermitian_moments}
+            bounds.update(self._stated_lowerbounds)
+            for mon, bound in self._support_lowerbounds.items():
+                bounds[mon] = max(bound, bounds.get(mon, bound))
+            self.moment_lowerbounds = bounds
             dir = "low"
         else:
             raise Exception(f"The bound type was {typ}, but it must be " +
@@ -2160,6 +2172,8 @@ class InflationSDP:
             ("Error: Tried to assign known values outside of moment matrix: " +
              str(set(self.known_moments.keys()
                      ).difference(self.moments)))
+        # Bounds and objective as they are for the current known values
+        self._cleanup_after_set_values()
         if len(self.maskmatrices) == 0:
             self._construct_mask_matrices()
         solverargs = {"mask_matrices": {mon.name: mask_matrix
-- 
2.43.0


From f181bf5e71b6f180189401411019975356f02284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:30 +0000
Subject: [PATCH 25/46] fix: a moment that is a multiple of a known one is a
 constant of the SDP

---
 inflation/sdp/sdp_utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/inflation/sdp/sdp_utils.py b/inflation/sdp/sdp_utils.py
index 3954ec1..f095f20 100644
--- a/inflation/sdp/sdp_utils.py
+++ b/inflation/sdp/sdp_utils.py
@@ -207,10 +207,6 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
         Fi[lam] = -1 * eye(mat_dim).tolil()
         var_objective = {lam: 1}
 
-    # Calculate F0, the constant part of the matrix variable.
-    F0 = coo_array((mat_dim, mat_dim), dtype=float)
-    F0 += sum(known_vars[x] * Fi[x] for x in set(Fi).intersection(known_vars))
-
     if process_constraints:
         # For the semiknown constraint x_i = a_i * x_j, add to the Fi of x_j
         # the expression a_i*(Fi of x_i).
@@ -232,13 +228,19 @@ def solveSDP_MosekFUSION(mask_matrices: Dict = None,
                 inequality[x2] = inequality.get(x2, 0) + c * val
 
             variables.remove(x)
-            variables.add(x2)
+            if x2 not in known_vars:
+                variables.add(x2)
 
     else:
         # Just add semiknown constraints as equality constraints.
         for x, (c, x2) in semiknown_vars.items():
             var_equalities.append({x: 1, x2: -c})
-            variables.add(x2)
+            if x2 not in known_vars:
+                variables.add(x2)
+
+    # Calculate F0, the constant part of the matrix variable.
+    F0 = coo_array((mat_dim, mat_dim), dtype=float)
+    F0 += sum(known_vars[x] * Fi[x] for x in set(Fi).intersection(known_vars))
 
     if default_non_negative and feas_as_optim and mask_matrices:
         # The smallest eigenvalue is not a moment: it can have any sign.
-- 
2.43.0


From 9d55a0bfd59d6b14f77330c4a2a5b06b4996155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 26/46] fix: explicitly supplied values take precedence over
 derived ones

---
 inflation/lp/InflationLP.py   | 4 ++++
 inflation/sdp/InflationSDP.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 042c766..1115c0f 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -427,6 +427,7 @@ class InflationLP(object):
                 pass
             mon = self._sanitise_monomial(mon)
             self.known_moments[mon] = value
+            self._specified_moments.add(mon)
         if not only_specified_values:
             atomic_knowns = {mon.factors[0]: val
                              for mon, val in self.known_moments.items()
@@ -455,6 +456,8 @@ class InflationLP(object):
             surprising_semiknowns = set()
             for mon in tqdm(list(remaining_mons), disable=not self.verbose,
                                  desc="Evaluating monomials    "):
+                if mon in self._specified_moments:
+                    continue
                 value, unknown_factors, known_status = mon.evaluate(
                     atomic_knowns,
                     self.use_lpi_constraints)
@@ -1743,6 +1746,7 @@ class InflationLP(object):
         self.known_moments     = dict()
         self.semiknown_moments = dict()
         self.known_moments[self.One] = 1.
+        self._specified_moments = set()
         self._support_lowerbounds = dict()
         self._combine_lowerbounds()
         self.extra_equalities = []
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index f4ccf94..58aab6c 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -695,6 +695,7 @@ class InflationSDP:
                 pass
             moment = self._sanitise_moment(moment)
             self.known_moments[moment] = value
+            self._specified_moments.add(moment)
             if (self.verbose > 0) and (not moment.is_all_commuting):
                 non_all_commuting_moments.add(moment)
         if (len(non_all_commuting_moments) >= 1) and (self.verbose > 0):
@@ -729,6 +730,8 @@ class InflationSDP:
                                   if not mon.is_atomic)
             surprising_semiknowns = set()
             for moment in remaining_mons:
+                if moment in self._specified_moments:
+                    continue
                 value, unknown_factors, known_status = moment.evaluate(
                     atomic_knowns,
                     self.use_lpi_constraints)
@@ -2035,6 +2038,7 @@ class InflationSDP:
         if self.momentmatrix_has_a_zero:
             self.known_moments[self.Zero] = 0.
         self.known_moments[self.One] = 1.
+        self._specified_moments = set()
         self._support_lowerbounds = dict()
         self.extra_equalities = []
         self.extra_inequalities = []
-- 
2.43.0


From 50dbc9b3109854c1ce0b2fb2818399c04acd7c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:02 +0000
Subject: [PATCH 27/46] fix: values derived from earlier values are derived
 anew when values are updated

---
 inflation/lp/InflationLP.py   | 7 +++++++
 inflation/sdp/InflationSDP.py | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 1115c0f..0f4235b 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -429,6 +429,13 @@ class InflationLP(object):
             self.known_moments[mon] = value
             self._specified_moments.add(mon)
         if not only_specified_values:
+            if not self.supports_problem:
+                # What was derived from earlier values is derived anew
+                self.known_moments = {mon: val for mon, val
+                                      in self.known_moments.items()
+                                      if mon in self._specified_moments
+                                      or mon == self.One}
+                self.semiknown_moments = dict()
             atomic_knowns = {mon.factors[0]: val
                              for mon, val in self.known_moments.items()
                              if len(mon) == 1}
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 58aab6c..b12df17 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -704,6 +704,14 @@ class InflationSDP:
                  str(non_all_commuting_moments))
         del non_all_commuting_moments
         if not only_specified_values:
+            if not self.supports_problem:
+                # What was derived from earlier values is derived anew
+                trivial = {self.Zero, self.One}
+                self.known_moments = {mon: val for mon, val
+                                      in self.known_moments.items()
+                                      if mon in self._specified_moments
+                                      or mon in trivial}
+                self.semiknown_moments = dict()
             atomic_knowns = {mon.factors[0]: val
                              for mon, val in self.known_moments.items()
                              if len(mon) == 1}
-- 
2.43.0


From 831aa6a4beeef50b7394df65650f00eb64982344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 28/46] fix: clean_coefficients chops before rescaling and
 accepts certificates with nothing above the tolerance

---
 inflation/utils.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/inflation/utils.py b/inflation/utils.py
index 9f9d572..4745a02 100644
--- a/inflation/utils.py
+++ b/inflation/utils.py
@@ -79,16 +79,18 @@ def clean_coefficients(cert: Dict[str, float],
     if not cert:
         return cert
     chop_tol = np.abs(chop_tol)
-    coeffs = np.asarray(list(cert.values()))
-    if chop_tol > 0:
-        # Try to take the smallest nonzero one and make it 1, when possible
-        normalising_factor = np.min(np.abs(coeffs[np.abs(coeffs) > chop_tol]))
-    else:
-        # Take the largest nonzero one and make it 1
-        normalising_factor = np.max(np.abs(coeffs[np.abs(coeffs) > chop_tol]))
-    coeffs /= normalising_factor
+    coeffs = np.array(list(cert.values()), dtype=float)
     # Set to zero very small coefficients
     coeffs[np.abs(coeffs) <= chop_tol] = 0
+    nonzero_abs = np.abs(coeffs[coeffs != 0])
+    if len(nonzero_abs) > 0:
+        if chop_tol > 0:
+            # Take the smallest nonzero one and make it 1
+            normalising_factor = np.min(nonzero_abs)
+        else:
+            # Take the largest nonzero one and make it 1
+            normalising_factor = np.max(nonzero_abs)
+        coeffs /= normalising_factor
     # Round
     coeffs = np.round(coeffs, decimals=round_decimals)
     return dict(zip(cert.keys(), coeffs.flat))
-- 
2.43.0


From 29bcd1f21a690ed90a857be99431cecc91c0f74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 29/46] fix: write the empty polynomial as 0 (SDP)

---
 inflation/sdp/InflationSDP.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index b12df17..c854bc7 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -987,8 +987,11 @@ class InflationSDP:
                     polynomial_as_str += mon.name
                 else:
                     polynomial_as_str += "{0}*{1}".format(abs(coeff), mon.name)
-        return polynomial_as_str[1:] if polynomial_as_str[
-                                            0] == "+" else polynomial_as_str
+        if not len(polynomial_as_str):  # Failsafe for empty dictionary.
+            polynomial_as_str = "0"
+        elif polynomial_as_str[0] == "+":
+            polynomial_as_str = polynomial_as_str[1:]
+        return polynomial_as_str
 
     def certificate_as_string(self,
                               clean: bool = True,
-- 
2.43.0


From 3b9f85b599bbfca2c47437f351511a3930100018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 30/46] fix: certificates keep the whole constant when both 1
 and the constant term appear

---
 inflation/lp/InflationLP.py   | 9 +++++++--
 inflation/sdp/InflationSDP.py | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 0f4235b..1a00635 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -685,8 +685,13 @@ class InflationLP(object):
             return dict()
         if clean:
             dual = clean_coefficients(dual, chop_tol, round_decimals)
-        return {self.monomial_from_name[k]: v for k, v in dual.items()
-                if not self.monomial_from_name[k].is_zero}
+        certificate = dict()
+        for k, v in dual.items():
+            mon = self.monomial_from_name[k]
+            if not mon.is_zero:
+                # The constant term and "1" are one and the same monomial
+                certificate[mon] = certificate.get(mon, 0) + v
+        return certificate
 
     def probs_from_dict(self,
                         dict_with_monomial_keys: dict) -> sp.core.add.Add:
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index c854bc7..5ee2a41 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -895,8 +895,13 @@ class InflationSDP:
             return dict()
         if clean:
             dual = clean_coefficients(dual, chop_tol, round_decimals)
-        return {self.monomial_from_name[k]: v for k, v in dual.items()
-                if not self.monomial_from_name[k].is_zero}
+        certificate = dict()
+        for k, v in dual.items():
+            mon = self.monomial_from_name[k]
+            if not mon.is_zero:
+                # The constant term and "1" are one and the same monomial
+                certificate[mon] = certificate.get(mon, 0) + v
+        return certificate
 
     def probs_from_dict(self,
                         dict_with_monomial_keys: dict) -> sp.core.add.Add:
-- 
2.43.0


From ef8a536af25871cc295326fd7ad1f461dfb66470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:59 +0000
Subject: [PATCH 31/46] fix: one line per bound in exported LP files

---
 inflation/lp/writer_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 277fa04..b7964cb 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -51,10 +51,10 @@ def write_to_lp(args: dict, filename: str) -> None:
 
     f.write("bounds\n")
     for x in lower_bounds:
-        f.write(f"{lower_bounds[x]} <= {x}")
+        f.write(f"{lower_bounds[x]} <= {x}\n")
     for x in upper_bounds:
-        f.write(f"{x} <= {upper_bounds[x]}")
-    f.write("end")
+        f.write(f"{x} <= {upper_bounds[x]}\n")
+    f.write("end\n")
     f.close()
 
 
-- 
2.43.0


From 556f4eeaaee24fc1a0a15d31ae869f5d3731b2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:44 +0000
Subject: [PATCH 32/46] fix: exported files mention every variable with a
 bound, and only bounds on unknown variables (LP)

---
 inflation/lp/writer_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index b7964cb..06885c2 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -196,9 +196,14 @@ def process_arguments(args: dict) -> dict:
     new_equalities = [{var_idx[x]: c for x, c in eq.items()} for eq in  old_equalities]
     new_inequalities = [{var_idx[x]: c for x, c in ineq.items()} for ineq in old_inequalities]
     new_known_vars = {var_idx[x]: c for x, c in old_known_vars.items()}
-    new_lower_bounds = {var_idx[x]: c for x, c in old_lower_bounds.items()}
-    new_upper_bounds = {var_idx[x]: c for x, c in old_upper_bounds.items()}
+    new_lower_bounds = {var_idx[x]: c for x, c in old_lower_bounds.items()
+                        if x not in old_known_vars}
+    new_upper_bounds = {var_idx[x]: c for x, c in old_upper_bounds.items()
+                        if x not in old_known_vars}
     new_objective = {var_idx[x]: c for x, c in old_objective.items()}
+    # The file formats only admit bounds on variables that appear elsewhere
+    for x in [*new_lower_bounds, *new_upper_bounds]:
+        new_objective.setdefault(x, 0)
 
     return {
         "objective": new_objective,
-- 
2.43.0


From b4c36f73bdce87fde804f66386b347f114b4b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:44 +0000
Subject: [PATCH 33/46] fix: exported files declare the variables of programs
 without default sign as free (LP)

---
 inflation/lp/InflationLP.py  | 1 +
 inflation/lp/writer_utils.py | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 1a00635..5fb54f7 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -944,6 +944,7 @@ class InflationLP(object):
 
         # Write file according to the extension
         args = self._prepare_solver_arguments(separate_bounds=True)
+        args["default_non_negative"] = self.default_non_negative
         if self.verbose > 0:
             print("Writing the LP program to", filename)
         if extension == "lp":
diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 06885c2..23f5915 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -139,6 +139,9 @@ def write_to_mps(args: dict, filename: str) -> None:
     # Specify variable bound values
     f.write(f"BOUNDS\n")
     for x in lower_bounds:
+        if lower_bounds[x] == -float("inf"):
+            f.write(" MI {:10}{:10}\n".format('bound', x))
+            continue
         arr = ['bound', x, lower_bounds[x]]
         f.write(" LO {:10}{:10}{:<10.4f}\n".format(*arr))
     for x in upper_bounds:
@@ -201,6 +204,11 @@ def process_arguments(args: dict) -> dict:
     new_upper_bounds = {var_idx[x]: c for x, c in old_upper_bounds.items()
                         if x not in old_known_vars}
     new_objective = {var_idx[x]: c for x, c in old_objective.items()}
+    # By default, the file formats take variables to be non-negative
+    if not args.get("default_non_negative", True):
+        for x in new_variables:
+            if x not in new_known_vars:
+                new_lower_bounds.setdefault(x, -float("inf"))
     # The file formats only admit bounds on variables that appear elsewhere
     for x in [*new_lower_bounds, *new_upper_bounds]:
         new_objective.setdefault(x, 0)
-- 
2.43.0


From daea75267cace208be81a9a65a76301f0ada048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:44 +0000
Subject: [PATCH 34/46] fix: write the numbers of MPS files with all their
 digits (LP)

---
 inflation/lp/writer_utils.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 23f5915..ed9e725 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -104,17 +104,17 @@ def write_to_mps(args: dict, filename: str) -> None:
     f.write(f"COLUMNS\n")
     for x in variables:
         if x in set(objective).difference(known_vars):
-            arr = [x, 'obj', objective[x]]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            arr = [x, 'obj', float(objective[x])]
+            f.write("    {:10}{:10}{!r}\n".format(*arr))
         for i, eq in enumerate(internal_equalities):
             if x in set(eq).difference(known_vars):
-                arr = [x, f"c{i}", eq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                arr = [x, f"c{i}", float(eq[x])]
+                f.write("    {:10}{:10}{!r}\n".format(*arr))
         for i, ineq in enumerate(inequalities):
             if x in set(ineq).difference(known_vars):
                 arr = [x, f"c{nof_equalities + i}",
-                       ineq[x]]
-                f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+                       float(ineq[x])]
+                f.write("    {:10}{:10}{!r}\n".format(*arr))
 
     f.write(f"RHS\n")
     # Specify objective offset
@@ -122,8 +122,8 @@ def write_to_mps(args: dict, filename: str) -> None:
     for x in set(objective).intersection(known_vars):
         rhs -= objective[x] * known_vars[x]
     if rhs != 0:
-        arr = ['rhs', 'obj', rhs]
-        f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+        arr = ['rhs', 'obj', float(rhs)]
+        f.write("    {:10}{:10}{!r}\n".format(*arr))
 
     # Specify non-zero RHS values of the constraints
     for i, c in enumerate(constraints):
@@ -131,8 +131,8 @@ def write_to_mps(args: dict, filename: str) -> None:
         for x in set(c).intersection(known_vars):
             rhs -= c[x] * known_vars[x]
         if rhs != 0:
-            arr = ['rhs', f"c{i}", rhs]
-            f.write("    {:10}{:10}{:<10.4f}\n".format(*arr))
+            arr = ['rhs', f"c{i}", float(rhs)]
+            f.write("    {:10}{:10}{!r}\n".format(*arr))
 
     f.write(f"RANGES\n")
 
@@ -142,11 +142,11 @@ def write_to_mps(args: dict, filename: str) -> None:
         if lower_bounds[x] == -float("inf"):
             f.write(" MI {:10}{:10}\n".format('bound', x))
             continue
-        arr = ['bound', x, lower_bounds[x]]
-        f.write(" LO {:10}{:10}{:<10.4f}\n".format(*arr))
+        arr = ['bound', x, float(lower_bounds[x])]
+        f.write(" LO {:10}{:10}{!r}\n".format(*arr))
     for x in upper_bounds:
-        arr = ['bound', x, upper_bounds[x]]
-        f.write(" UP {:10}{:10}{:<10.4f}\n".format(*arr))
+        arr = ['bound', x, float(upper_bounds[x])]
+        f.write(" UP {:10}{:10}{!r}\n".format(*arr))
     f.write(f"ENDATA")
     f.close()
 
-- 
2.43.0


From 84c0e2df3a78a527d5a481a3e5498e7931480776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:55 +0000
Subject: [PATCH 35/46] fix: keep the constant of objectives without unknown
 variables in exported LP files

---
 inflation/lp/writer_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index ed9e725..f92fd77 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -254,6 +254,8 @@ def format_constraint_lp(known_vars: dict,
     for x in set(constraint).difference(known_vars):
         cons += f"{constraint[x]} {x} + "
     if cons == "":
+        if cons_type == 'obj':
+            return str(c)
         return cons
 
     if cons_type == 'obj':
-- 
2.43.0


From 6ee8111a2f5249d469bd834a9d14f8e79660c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:55 +0000
Subject: [PATCH 36/46] fix: exported files keep the constraints that known
 values contradict (LP)

---
 inflation/lp/writer_utils.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index f92fd77..266f8bc 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -78,11 +78,16 @@ def write_to_mps(args: dict, filename: str) -> None:
     upper_bounds = processed_args["upper_bounds"]
     variables = processed_args["variables"]
 
-    # Exclude constraints in which variables are all known values
+    # Exclude constraints in which variables are all known values, unless these
+    # are in contradiction with the constraint
+    def slack(cons):
+        return sum(c * known_vars[x] for x, c in cons.items())
     internal_equalities = [eq for eq in internal_equalities
-                           if set(eq).difference(known_vars)]
+                           if set(eq).difference(known_vars)
+                           or abs(slack(eq)) > 1e-9]
     inequalities = [ineq for ineq in inequalities
-                    if set(ineq).difference(known_vars)]
+                    if set(ineq).difference(known_vars)
+                    or slack(ineq) < -1e-9]
     constraints = internal_equalities + inequalities
     nof_equalities = len(internal_equalities)
     nof_inequalities = len(inequalities)
@@ -256,7 +261,11 @@ def format_constraint_lp(known_vars: dict,
     if cons == "":
         if cons_type == 'obj':
             return str(c)
-        return cons
+        violated = c < -1e-9 or (cons_type == 'eq' and c > 1e-9)
+        if not (violated and constraint):
+            return cons
+        # Known values in contradiction with the constraint
+        cons = f"0 {next(iter(constraint))} + "
 
     if cons_type == 'obj':
         cons += str(c)
-- 
2.43.0


From 4ec9add00a829e97dcc4186d6ce2156c87c96e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:00 +0000
Subject: [PATCH 37/46] fix: write lower bounds in LP files in the form that is
 read back

---
 inflation/lp/writer_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 266f8bc..645f700 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -51,7 +51,7 @@ def write_to_lp(args: dict, filename: str) -> None:
 
     f.write("bounds\n")
     for x in lower_bounds:
-        f.write(f"{lower_bounds[x]} <= {x}\n")
+        f.write(f"{x} >= {lower_bounds[x]}\n")
     for x in upper_bounds:
         f.write(f"{x} <= {upper_bounds[x]}\n")
     f.write("end\n")
-- 
2.43.0


From d9966db7bdca616e18e8233736038f6f6ebd7e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:59 +0000
Subject: [PATCH 38/46] fix: only the last component of a path determines the
 format of the exported file

---
 inflation/lp/InflationLP.py   | 3 ++-
 inflation/lp/writer_utils.py  | 3 ++-
 inflation/sdp/InflationSDP.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 5fb54f7..7905c61 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -10,6 +10,7 @@ from functools import reduce, cached_property
 from gc import collect
 from operator import neg as op_neg
 from numbers import Real
+from os.path import basename
 from typing import List, Dict, Union, Any
 from warnings import warn
 
@@ -935,7 +936,7 @@ class InflationLP(object):
             ``.mps`` (MPS).
         """
         # Determine file extension
-        parts = filename.split(".")
+        parts = basename(filename).split(".")
         if len(parts) >= 2:
             extension = parts[-1]
         else:
diff --git a/inflation/lp/writer_utils.py b/inflation/lp/writer_utils.py
index 645f700..218b1d1 100644
--- a/inflation/lp/writer_utils.py
+++ b/inflation/lp/writer_utils.py
@@ -7,6 +7,7 @@ problem to file.
 
 import mosek
 from copy import deepcopy
+from os.path import splitext
 
 
 def write_to_lp(args: dict, filename: str) -> None:
@@ -167,7 +168,7 @@ def lp_to_mps(args: dict, filename: str) -> None:
     filename : str
         The file to write to.
     """
-    lp_filename = f"{filename.split('.')[0]}.lp"
+    lp_filename = f"{splitext(filename)[0]}.lp"
     write_to_lp(args, lp_filename)
     with mosek.Task() as t:
         t.readdata(f"{lp_filename}")
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 5ee2a41..2ce847b 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -11,6 +11,7 @@ from itertools import chain, count, product, repeat, combinations
 from operator import neg as op_neg
 from numbers import Real
 from operator import itemgetter
+from os.path import basename
 from typing import List, Dict, Tuple, Union, Any
 from warnings import warn
 
@@ -1324,7 +1325,7 @@ class InflationSDP:
             (MATLAB), ``.dat-s`` (SDPA), and ``.csv`` (human-readable).
         """
         # Determine file extension
-        parts = filename.split(".")
+        parts = basename(filename).split(".")
         if len(parts) >= 2:
             extension = parts[-1]
         else:
-- 
2.43.0


From 93a6cbde9b5484a3eb29b47364d19509135d9f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 39/46] fix: keep the sign of known values in exported SDPA
 files

---
 inflation/sdp/writer_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index c5d7ea7..b4a09f4 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -301,7 +301,7 @@ def write_to_sdpa(problem, filename):
                 elif var in known_moments_indices.keys():
                     coeff = known_moments_indices[var]
                     lines.append(
-                        f"0\t{block}\t{ii+1}\t{jj+1}\t-{abs(coeff)}\n")
+                        f"0\t{block}\t{ii+1}\t{jj+1}\t{-coeff}\n")
                 elif var in semiknowns.keys():
                     coeff, subs = semiknowns[var]
                     try:
-- 
2.43.0


From 508f60f1af931da3d9263043aa72ca113fbbb0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 40/46] fix: the unit moment is a variable of unnormalised
 problems exported to SDPA

---
 inflation/sdp/writer_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index b4a09f4..ba2fbef 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -296,7 +296,7 @@ def write_to_sdpa(problem, filename):
             if jj >= ii:
                 if var == 0:
                     pass
-                elif var == 1:
+                elif var == 1 and problem.One in problem.known_moments:
                     lines.append(f"0\t{block}\t{ii+1}\t{jj+1}\t-1.0\n")
                 elif var in known_moments_indices.keys():
                     coeff = known_moments_indices[var]
-- 
2.43.0


From 229b846cda620c3e7720ea850177201c6015483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 41/46] fix: one diagonal entry per inequality in exported SDPA
 files

---
 inflation/sdp/writer_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index ba2fbef..9a07624 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -407,7 +407,7 @@ def write_to_sdpa(problem, filename):
                     sumcoeffs += coeff
         if sumcoeffs != 0:
             lines.append(f"0\t{block}\t{ii}\t{ii}\t{-sumcoeffs}\n")
-        ii += 2
+        ii += 1
     file_ = open(filename, "w")
     file_.write("\"file " + filename + " generated by inflation\"\n")
     if abs(objective_constant) > 1e-8:
-- 
2.43.0


From 6c43daecf9fd40b0eb783dce413f84bde9d31733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 42/46] fix: substitute known and semiknown moments in the
 objective, bounds and constraints exported to SDPA

---
 inflation/sdp/writer_utils.py | 149 ++++++++++++++--------------------
 1 file changed, 63 insertions(+), 86 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index 9a07624..4442111 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -6,6 +6,7 @@ formats.
 """
 import numpy as np
 
+from collections import defaultdict
 from copy import deepcopy
 from scipy.io import savemat
 from warnings import warn
@@ -266,22 +267,6 @@ def write_to_sdpa(problem, filename):
     For more information about the .dat-s format, see the specifications at:
     http://euler.nmt.edu/~brian/sdplib/FORMAT
     """
-    # Compute actual number of variables: all in the moment matrix, minus those
-    # with known values, minus those that participate in LPI constraints, plus
-    # those where the unknown part of the LPI constraint is not in the original
-    # moment matrix
-    potential_nvars = problem.momentmatrix.max() - 1
-    if len(problem.known_moments) == 1:
-        known_vars = 0
-    else:
-        known_vars = (len(problem.known_moments)
-                      - problem.momentmatrix_has_a_zero
-                      - problem.momentmatrix_has_a_one)
-    semiknown_vars = len(problem.semiknown_moments)
-    new_vars       = sum([mon[1][1].idx > problem.momentmatrix.max()
-                          for mon in problem.semiknown_moments.items()])
-    nvars = potential_nvars - known_vars - semiknown_vars + new_vars
-
     known_moments_indices = {mon.idx: coeff
                              for mon, coeff in problem.known_moments.items()}
     semiknowns  = {mon.idx: (subs[0], subs[1].idx)
@@ -304,6 +289,11 @@ def write_to_sdpa(problem, filename):
                         f"0\t{block}\t{ii+1}\t{jj+1}\t{-coeff}\n")
                 elif var in semiknowns.keys():
                     coeff, subs = semiknowns[var]
+                    if subs in known_moments_indices:
+                        coeff = coeff * known_moments_indices[subs]
+                        lines.append(
+                            f"0\t{block}\t{ii+1}\t{jj+1}\t{-coeff}\n")
+                        continue
                     try:
                         var = var_corresp[subs]
                         lines.append(
@@ -323,91 +313,78 @@ def write_to_sdpa(problem, filename):
                             f"{new_var}\t{block}\t{ii+1}\t{jj+1}\t1.0\n")
                         new_var += 1
 
+    def substitute(expression):
+        """Write a linear combination of moments in terms of the variables of
+        the file and a constant.
+        """
+        coeffs, constant = defaultdict(float), 0.
+        for mon, coeff in expression.items():
+            if mon in problem.semiknown_moments:
+                factor, mon = problem.semiknown_moments[mon]
+                coeff = factor * coeff
+            if mon in problem.known_moments:
+                constant += coeff * problem.known_moments[mon]
+            else:
+                var = var_corresp.setdefault(mon.idx, len(var_corresp) + 1)
+                coeffs[var] += coeff
+        return coeffs, constant
+
+    def write_inequality(coeffs, constant, ii):
+        for var, coeff in coeffs.items():
+            if coeff != 0:
+                lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
+        if constant != 0:
+            lines.append(f"0\t{block}\t{ii}\t{ii}\t{-constant}\n")
+
     # Prepare objective
-    objective = np.zeros(nvars)
-    for variable, coeff in problem.objective.items():
-        if variable == problem.One:
-            if abs(coeff) > 1e-8:
-                warn(f"Export removed the constant {coeff} from the objective")
-        else:
-            objective[var_corresp[variable.idx] - 1] = coeff
-    objective = str(objective.tolist()).replace("[", "").replace("]", "")
-    objective_constant = problem.objective[problem.One]
+    objective, objective_constant = substitute(problem.objective)
+    if abs(objective_constant) > 1e-8:
+        warn(f"Export removed the constant {objective_constant} from the "
+             + "objective")
 
     # Prepare upper bounds
-    if len(problem.moment_upperbounds) > 0:
+    upperbounds = [(mon, ub) for mon, ub in problem.moment_upperbounds.items()
+                   if ((mon not in problem.known_moments)
+                       and (mon not in problem.semiknown_moments))]
+    if upperbounds:
         block += 1
-        ii     = 1
-        block_size = len([mon for mon in problem.moment_upperbounds.keys()
-                          if ((mon != problem.One)
-                          and (mon not in problem.known_moments.keys())
-                          and (mon not in problem.semiknown_moments.keys()))])
-        blockstruct.append(str(-block_size))
-    for var, ub in problem.moment_upperbounds.items():
-        if ((var != problem.One)
-            and (var not in problem.known_moments.keys())
-            and (var not in problem.semiknown_moments.keys())):
-            var = var_corresp[var.idx]
-            lines.append(f"{var}\t{block}\t{ii}\t{ii}\t-1.0\n")
-            if abs(ub) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t-{ub}\n")
-            ii += 1
+        blockstruct.append(str(-len(upperbounds)))
+    for ii, (mon, ub) in enumerate(upperbounds):
+        coeffs, _ = substitute({mon: -1.0})
+        write_inequality(coeffs, ub if abs(ub) > 1e-8 else 0, ii + 1)
 
     # Prepare lower bounds
-    if len(problem.moment_lowerbounds) > 0:
+    lowerbounds = [(mon, lb) for mon, lb in problem.moment_lowerbounds.items()
+                   if ((mon not in problem.known_moments)
+                       and (mon not in problem.semiknown_moments))]
+    if lowerbounds:
         block += 1
-        ii     = 1
-        block_size = len([mon for mon in problem.moment_lowerbounds.keys()
-                          if ((mon != problem.One)
-                          and (mon not in problem.known_moments.keys())
-                          and (mon not in problem.semiknown_moments.keys()))])
-        blockstruct.append(str(-block_size))
-    for var, lb in problem.moment_lowerbounds.items():
-        if ((var != problem.One)
-            and (var not in problem.known_moments.keys())
-            and (var not in problem.semiknown_moments.keys())):
-            var = var_corresp[var.idx]
-            lines.append(f"{var}\t{block}\t{ii}\t{ii}\t1.0\n")
-            if abs(lb) > 1e-8:
-                lines.append(f"0\t{block}\t{ii}\t{ii}\t{lb}\n")
-            ii += 1
+        blockstruct.append(str(-len(lowerbounds)))
+    for ii, (mon, lb) in enumerate(lowerbounds):
+        coeffs, _ = substitute({mon: 1.0})
+        write_inequality(coeffs, -lb if abs(lb) > 1e-8 else 0, ii + 1)
 
     # Prepare equalities
     if len(problem.moment_equalities) > 0:
         block += 1
-        ii     = 1
-        block_size = 2*len(problem.moment_equalities)
-        blockstruct.append(str(-block_size))
-    for equality in problem.moment_equalities:
-        for var, coeff in equality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                    lines.append(f"{var}\t{block}\t{ii+1}\t{ii+1}\t{-coeff}\n")
-                else:
-                    lines.append(f"0\t{block}\t{ii}\t{ii}\t{-coeff}\n")
-                    lines.append(f"0\t{block}\t{ii+1}\t{ii+1}\t{coeff}\n")
-        ii += 2
+        blockstruct.append(str(-2*len(problem.moment_equalities)))
+    for ii, equality in enumerate(problem.moment_equalities):
+        coeffs, constant = substitute(equality)
+        write_inequality(coeffs, constant, 2*ii + 1)
+        write_inequality({var: -coeff for var, coeff in coeffs.items()},
+                         -constant, 2*ii + 2)
 
     # Prepare inequalities
     if len(problem.moment_inequalities) > 0:
         block += 1
-        ii = 1
-        block_size = len(problem.moment_inequalities)
-        blockstruct.append(str(-block_size))
-    for inequality in problem.moment_inequalities:
-        sumcoeffs = 0
-        for var, coeff in inequality.items():
-            if problem.known_moments.get(var, None) not in [0]:
-                if var != problem.One:
-                    var = var_corresp[var.idx]
-                    lines.append(f"{var}\t{block}\t{ii}\t{ii}\t{coeff}\n")
-                else:
-                    sumcoeffs += coeff
-        if sumcoeffs != 0:
-            lines.append(f"0\t{block}\t{ii}\t{ii}\t{-sumcoeffs}\n")
-        ii += 1
+        blockstruct.append(str(-len(problem.moment_inequalities)))
+    for ii, inequality in enumerate(problem.moment_inequalities):
+        write_inequality(*substitute(inequality), ii + 1)
+
+    # The variables are those found in the moment matrix and the constraints
+    nvars = len(var_corresp)
+    objective = ", ".join(str(float(objective.get(var, 0.)))
+                          for var in range(1, nvars + 1))
     file_ = open(filename, "w")
     file_.write("\"file " + filename + " generated by inflation\"\n")
     if abs(objective_constant) > 1e-8:
-- 
2.43.0


From 322c39bed1e6b5339a57c228bc53ea433733c6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 43/46] fix: commas in names do not separate the cells of
 exported CSV files

---
 inflation/sdp/writer_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inflation/sdp/writer_utils.py b/inflation/sdp/writer_utils.py
index 4442111..0076c13 100644
--- a/inflation/sdp/writer_utils.py
+++ b/inflation/sdp/writer_utils.py
@@ -36,13 +36,13 @@ def convert_to_human_readable(problem):
     # Replacer for semiknowns
     semiknowns = dict()
     for key, val in problem.semiknown_moments.items():
-        val_str = val[1].name.replace(", ", ";")
+        val_str = val[1].name.replace(", ", ";").replace(",", ";")
         semiknowns[key.idx] = f"{val[0]}*{val_str}"
     semiknown_replacer = np.vectorize(lambda x: semiknowns.get(x, str(x)))
     # Replacer for remaining symbols
     monomials = dict()
     for mon in problem.moments:
-        monomials[mon.idx] = mon.name.replace(", ", ";")
+        monomials[mon.idx] = mon.name.replace(", ", ";").replace(",", ";")
 
     def replace_known(monom):
         try:
@@ -82,7 +82,7 @@ def convert_to_human_readable(problem):
                           key=lambda x: x.name)
     bounds = np.zeros((len(bounded_vars), 3), dtype=object)
     for idx, var in enumerate(bounded_vars):
-        bounds[idx, 0] = var
+        bounds[idx, 0] = var.name.replace(", ", ";").replace(",", ";")
         bounds[idx, 1] = problem.moment_lowerbounds.get(var, None)
         bounds[idx, 2] = problem.moment_upperbounds.get(var, None)
 
@@ -141,7 +141,7 @@ def write_to_csv(problem, filename):
     f.write("Bounds:\n")
     f.write("Variable,lower,upper\n")
     for bound_line in bounds:
-        f.write(str(bound_line)[1:-1].replace(" ", ""))
+        f.write(",".join(str(entry) for entry in bound_line).replace(" ", ""))
         f.write("\n")
     f.write("\nEqualities (format: line = 0):\n")
     for equality in equalities:
-- 
2.43.0


From 8127f0b26c1ca4642966d8b31cffed84a23b1357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 44/46] fix: certificates may involve derived moments and the
 unit when optimising a parameter via the dual

---
 inflation/optimization_utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/inflation/optimization_utils.py b/inflation/optimization_utils.py
index f2698d7..b30ac6b 100644
--- a/inflation/optimization_utils.py
+++ b/inflation/optimization_utils.py
@@ -231,7 +231,14 @@ def _maximize_via_dual(program: Union[InflationLP, InflationSDP],
     solve_dual     = kwargs.get("solve_dual", True)
     solverparameters = kwargs.get("solverparameters", None)
 
-    symbol_names = {str(key): val for key, val in symbolic_values.items()}
+    # The certificates are written in terms of everything that is known,
+    # including what is derived from the values specified
+    program.set_values(symbolic_values,
+                       use_lpi_constraints=use_lpi,
+                       only_specified_values=only_specified)
+    symbol_names = {mon.name: val
+                    for mon, val in program.known_moments.items()}
+    symbol_names[program.constant_term_name] = 1.
     func_to_minimize = lambdify([param], -param, modules='numpy', cse=True)
     sp_bounds = Bounds(lb=bounds[0], ub=bounds[1])
     x0 = np.array([bounds[0]])
-- 
2.43.0


From 3deb2dbbe377e11a4e5a99c3a63839da2b92daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:54 +0000
Subject: [PATCH 45/46] fix: updating values leaves what setting all of them at
 once leaves (support problems; moments outside the relaxation)

---
 inflation/lp/InflationLP.py   | 22 ++++++++++++----------
 inflation/sdp/InflationSDP.py | 24 +++++++++++++-----------
 2 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index 7905c61..a1e8b42 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -428,15 +428,17 @@ class InflationLP(object):
                 pass
             mon = self._sanitise_monomial(mon)
             self.known_moments[mon] = value
-            self._specified_moments.add(mon)
+            self._specified_values[mon] = value
         if not only_specified_values:
-            if not self.supports_problem:
-                # What was derived from earlier values is derived anew
-                self.known_moments = {mon: val for mon, val
-                                      in self.known_moments.items()
-                                      if mon in self._specified_moments
-                                      or mon == self.One}
-                self.semiknown_moments = dict()
+            # What was derived from earlier values is derived anew
+            self.known_moments = {mon: val for mon, val
+                                  in self.known_moments.items()
+                                  if mon == self.One}
+            self.known_moments.update(self._specified_values)
+            self._support_lowerbounds = {mon: bound for mon, bound
+                                         in self._support_lowerbounds.items()
+                                         if mon == self.One}
+            self.semiknown_moments = dict()
             atomic_knowns = {mon.factors[0]: val
                              for mon, val in self.known_moments.items()
                              if len(mon) == 1}
@@ -464,7 +466,7 @@ class InflationLP(object):
             surprising_semiknowns = set()
             for mon in tqdm(list(remaining_mons), disable=not self.verbose,
                                  desc="Evaluating monomials    "):
-                if mon in self._specified_moments:
+                if mon in self._specified_values:
                     continue
                 value, unknown_factors, known_status = mon.evaluate(
                     atomic_knowns,
@@ -1760,7 +1762,7 @@ class InflationLP(object):
         self.known_moments     = dict()
         self.semiknown_moments = dict()
         self.known_moments[self.One] = 1.
-        self._specified_moments = set()
+        self._specified_values = dict()
         self._support_lowerbounds = dict()
         self._combine_lowerbounds()
         self.extra_equalities = []
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 2ce847b..24ee07a 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -696,7 +696,7 @@ class InflationSDP:
                 pass
             moment = self._sanitise_moment(moment)
             self.known_moments[moment] = value
-            self._specified_moments.add(moment)
+            self._specified_values[moment] = value
             if (self.verbose > 0) and (not moment.is_all_commuting):
                 non_all_commuting_moments.add(moment)
         if (len(non_all_commuting_moments) >= 1) and (self.verbose > 0):
@@ -705,14 +705,16 @@ class InflationSDP:
                  str(non_all_commuting_moments))
         del non_all_commuting_moments
         if not only_specified_values:
-            if not self.supports_problem:
-                # What was derived from earlier values is derived anew
-                trivial = {self.Zero, self.One}
-                self.known_moments = {mon: val for mon, val
-                                      in self.known_moments.items()
-                                      if mon in self._specified_moments
-                                      or mon in trivial}
-                self.semiknown_moments = dict()
+            # What was derived from earlier values is derived anew
+            trivial = {self.Zero, self.One}
+            self.known_moments = {mon: val for mon, val
+                                  in self.known_moments.items()
+                                  if mon in trivial}
+            self.known_moments.update(self._specified_values)
+            self._support_lowerbounds = {mon: bound for mon, bound
+                                         in self._support_lowerbounds.items()
+                                         if mon in trivial}
+            self.semiknown_moments = dict()
             atomic_knowns = {mon.factors[0]: val
                              for mon, val in self.known_moments.items()
                              if len(mon) == 1}
@@ -739,7 +741,7 @@ class InflationSDP:
                                   if not mon.is_atomic)
             surprising_semiknowns = set()
             for moment in remaining_mons:
-                if moment in self._specified_moments:
+                if moment in self._specified_values:
                     continue
                 value, unknown_factors, known_status = moment.evaluate(
                     atomic_knowns,
@@ -2055,7 +2057,7 @@ class InflationSDP:
         if self.momentmatrix_has_a_zero:
             self.known_moments[self.Zero] = 0.
         self.known_moments[self.One] = 1.
-        self._specified_moments = set()
+        self._specified_values = dict()
         self._support_lowerbounds = dict()
         self.extra_equalities = []
         self.extra_inequalities = []
-- 
2.43.0


From a99997ddd11dae9918f75d7c3aa6aa952a201193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:42 +0000
Subject: [PATCH 46/46] fix: a constant given as a symbolic expression is not
 dropped

---
 inflation/lp/InflationLP.py   | 2 +-
 inflation/sdp/InflationSDP.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inflation/lp/InflationLP.py b/inflation/lp/InflationLP.py
index a1e8b42..267ad68 100644
--- a/inflation/lp/InflationLP.py
+++ b/inflation/lp/InflationLP.py
@@ -1151,7 +1151,7 @@ class InflationLP(object):
             if input_dict.free_symbols:
                 input_dict_copy = {k: float(v) for k, v in sp.expand(input_dict).as_coefficients_dict().items()}
             else:
-                input_dict_copy = dict()
+                input_dict_copy = {self.One: float(input_dict)}
         else:
             input_dict_copy = input_dict
         output_dict = defaultdict(int)
diff --git a/inflation/sdp/InflationSDP.py b/inflation/sdp/InflationSDP.py
index 24ee07a..4f85156 100644
--- a/inflation/sdp/InflationSDP.py
+++ b/inflation/sdp/InflationSDP.py
@@ -1612,7 +1612,7 @@ class InflationSDP:
                 input_dict_copy = {k: float(v) for k, v in sp.expand(
                     input_dict).as_coefficients_dict().items()}
             else:
-                input_dict_copy = dict()
+                input_dict_copy = {self.One: float(input_dict)}
         else:
             input_dict_copy = input_dict
         output_dict = defaultdict(int)
-- 
2.43.0

