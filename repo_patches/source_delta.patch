From 72282502d3959c573d672b60c1fba14c4242bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 01/39] fix: end Lanczos recurrences when the Krylov space is
 exhausted

The tridiagonalisation divided by a zero off-diagonal entry, and returned
NaN, when the starting vector spans an invariant subspace.
---
 conex/approximate_eigenvalues.cc | 12 ++++++++++--
 conex/jordan_matrix_algebra.cc   | 13 ++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/conex/approximate_eigenvalues.cc b/conex/approximate_eigenvalues.cc
index 517a927..be49a66 100644
--- a/conex/approximate_eigenvalues.cc
+++ b/conex/approximate_eigenvalues.cc
@@ -153,19 +153,27 @@ Eigen::VectorXd ApproximateEigenvalues(const MatrixXd& A, const MatrixXd& r0,
 
   V.col(0) = r0 / r0.norm();
   alpha(0) = V.col(0).transpose() * A * V.col(0);
-  VectorXd wprev = A * V.col(0) - alpha(0) * V.col(0);
+  VectorXd wprev = A * V.col(0);
+  const double scaling = wprev.norm();
+  wprev -= alpha(0) * V.col(0);
 
+  int cnt = 0;
   VectorXd wj;
   for (int j = 1; j < num_iter; j++) {
     auto&& v = V.col(j);
     beta(j - 1) = wprev.norm();
+    // The Krylov subspace is exhausted.
+    if (beta(j - 1) <= 1e-12 * scaling) {
+      break;
+    }
     v = wprev / beta(j - 1);
     alpha(j) = v.transpose() * A * v;
     wprev = A * v - alpha(j) * v - beta(j - 1) * V.col(j - 1);
+    cnt++;
   }
 
   Eigen::SelfAdjointEigenSolver<MatrixXd> x;
-  x.computeFromTridiagonal(alpha, beta,
+  x.computeFromTridiagonal(alpha.head(cnt + 1), beta.head(cnt),
                            Eigen::DecompositionOptions::EigenvaluesOnly);
   return x.eigenvalues();
 }
diff --git a/conex/jordan_matrix_algebra.cc b/conex/jordan_matrix_algebra.cc
index c2bbd5e..63b1050 100644
--- a/conex/jordan_matrix_algebra.cc
+++ b/conex/jordan_matrix_algebra.cc
@@ -250,13 +250,19 @@ Eigen::VectorXd MatrixAlgebra<d>::ApproximateEigenvalues(
   auto temp =
       T::Multiply(T::ConjugateTranspose(V.at(0)), T::Multiply(A, V.at(0)));
   alpha(0) = temp.at(0)(0, 0);
-  auto wprev =
-      T::Add(T::Multiply(A, V.at(0)), T::ScalarMultiply(V.at(0), -alpha(0)));
+  auto wprev = T::Multiply(A, V.at(0));
+  const double scaling = wprev.norm();
+  wprev = T::Add(wprev, T::ScalarMultiply(V.at(0), -alpha(0)));
 
+  int cnt = 0;
   VectorXd wj;
   for (int j = 1; j < num_iter; j++) {
     auto&& v = V.at(j);
     beta(j - 1) = wprev.norm();
+    // The Krylov subspace is exhausted.
+    if (beta(j - 1) <= 1e-12 * scaling) {
+      break;
+    }
     v = T::ScalarMultiply(wprev, 1.0 / beta(j - 1));
     // alpha(j) = v.transpose() * A * v;
     alpha(j) =
@@ -266,10 +272,11 @@ Eigen::VectorXd MatrixAlgebra<d>::ApproximateEigenvalues(
     // wprev = A*v - alpha(j) * v - beta(j - 1) * V.col(j-1);
     wprev = T::Add(T::Multiply(A, v), T::ScalarMultiply(v, -alpha(j)));
     wprev = T::Add(wprev, T::ScalarMultiply(V.at(j - 1), -beta(j - 1)));
+    cnt++;
   }
 
   Eigen::SelfAdjointEigenSolver<MatrixXd> x;
-  x.computeFromTridiagonal(alpha, beta,
+  x.computeFromTridiagonal(alpha.head(cnt + 1), beta.head(cnt),
                            Eigen::DecompositionOptions::EigenvaluesOnly);
   return x.eigenvalues();
 }
-- 
2.43.0


From bf21a18ba2608d4ab5c44553822b9259f638b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:59 +0000
Subject: [PATCH 02/39] fix: include vertex 0 among the maximum degree vertices

---
 conex/elimination_ordering.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/elimination_ordering.cc b/conex/elimination_ordering.cc
index 215e023..df16d89 100644
--- a/conex/elimination_ordering.cc
+++ b/conex/elimination_ordering.cc
@@ -280,7 +280,7 @@ Eigen::PermutationMatrix<-1, -1> EliminationOrdering(const Matrix& G) {
 Eigen::VectorXd MaximumDegreeVertices(const Matrix& G) {
   int N = G.rows();
   Eigen::VectorXd sums = G * Eigen::MatrixXd::Ones(N, 1);
-  std::vector<int> argmax;
+  std::vector<int> argmax(1, 0);
   int max = sums(0);
   for (int i = 1; i < N; i++) {
     if (sums(i) >= max) {
-- 
2.43.0


From 188dc0dad2ef8e43146ed1dab75590cfaa1195d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:19 +0000
Subject: [PATCH 03/39] fix: do not read the entries of an empty matrix in
 RLDLT

---
 conex/RLDLT.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/RLDLT.h b/conex/RLDLT.h
index d945e9a..0d90321 100644
--- a/conex/RLDLT.h
+++ b/conex/RLDLT.h
@@ -310,7 +310,7 @@ struct rldlt_inplace<Lower> {
     const double regularization_value = 1e-9;
 
     if (size <= 1) {
-      if (std::fabs(mat.coeff(0, 0)) < regularization_value) {
+      if (size == 1 && std::fabs(mat.coeff(0, 0)) < regularization_value) {
         if (mat.coeff(0, 0) < 0) {
           mat.coeffRef(0, 0) = -regularization_value;
         } else {
-- 
2.43.0


From 8a69cc9054c5759530b2147928c10ccf0bccf35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:42 +0000
Subject: [PATCH 04/39] fix: skip empty supernodes in column-wise triangular
 operations

---
 conex/supernodal_solver.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/conex/supernodal_solver.cc b/conex/supernodal_solver.cc
index cff384a..2380a57 100644
--- a/conex/supernodal_solver.cc
+++ b/conex/supernodal_solver.cc
@@ -42,13 +42,17 @@ int GetMax(const std::vector<Clique>& cliques) {
 class TriangularMatrixColumnOperations {
  public:
   TriangularMatrixColumnOperations(T::Matrix* mat) : mat_(mat) {
-    dense_size = mat_->supernode_size.at(0);
+    // Supernodes can be empty.
+    while (mat_->supernode_size.at(supernode_index_) == 0) {
+      supernode_index_++;
+    }
+    dense_size = mat_->supernode_size.at(supernode_index_);
   }
   void NextColumn() {
     supernode_column_++;
     column++;
     dense_size--;
-    if (supernode_column_ >= mat_->supernode_size.at(supernode_index_)) {
+    while (supernode_column_ >= mat_->supernode_size.at(supernode_index_)) {
       supernode_index_++;
       supernode_column_ = 0;
       dense_size = mat_->supernode_size.at(supernode_index_);
@@ -164,7 +168,7 @@ class LowerTriangularSuperNodal {
   // The smallest super-node less than i.
   int LookupSuperNode(int index, int start) const {
     for (int j = static_cast<int>(path_.size()) - 1; j >= 0; j--) {
-      if (index >= path_.at(j).at(0)) {
+      if (supernode_size_.at(j) > 0 && index >= path_.at(j).at(0)) {
         return j;
       }
     }
-- 
2.43.0


From 0d4979172765b2511d0ccd2632e30b4e2fdefb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 05/39] fix: do not treat supernodes with fill-in as an exact
 match of the clique

---
 conex/supernodal_assembler.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conex/supernodal_assembler.cc b/conex/supernodal_assembler.cc
index 464a60c..0d93cba 100644
--- a/conex/supernodal_assembler.cc
+++ b/conex/supernodal_assembler.cc
@@ -77,9 +77,11 @@ void T::BindDiagonalBlock(const DiagonalBlock* data) {
   int m = NumberOfVariables();
 
   if (m == data->num_vars) {
+    // The supernode must contain the variables of the clique in order. It can
+    // also contain variables that are fill-in, which have negative labels.
     direct_update = true;
-    for (int i = 1; i < data->num_vars; i++) {
-      if (*(data->var_data + i) <= *(data->var_data + i - 1)) {
+    for (int i = 0; i < data->num_vars; i++) {
+      if (*(data->var_data + i) != i) {
         direct_update = false;
         break;
       }
-- 
2.43.0


From 713261b1cf9ffc9e730d96d952e4c8c94cc71bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:49 +0000
Subject: [PATCH 06/39] fix: do not double the accumulated system in quadratic
 cone constraints

---
 conex/quadratic_cone_constraint.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index 9260a56..11dca63 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -252,6 +252,15 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
   double det_w = (*o->workspace_.W0) * (*o->workspace_.W0) -
                  SquaredNorm(o->Q_, o->workspace_.W1, &Q_W1);
 
+  if (!initialize) {
+    // Everything in sys is multiplied by two below.
+    sys->AQc *= .5;
+    sys->AW *= .5;
+    sys->inner_product_of_c_and_Qc *= .5;
+    sys->inner_product_of_w_and_c *= .5;
+    sys->G *= .5;
+  }
+
   if (initialize) {
     SchurComplement(A0, A_gram, *o->workspace_.W0, det_w, A_dot_x, true,
                     &sys->G);
-- 
2.43.0


From a5ec0b2f5c58852ecc7dcee616c695abd9ee4dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:19 +0000
Subject: [PATCH 07/39] fix: start Lanczos from a nonzero vector when the slack
 is zero

---
 conex/approximate_eigenvalues.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conex/approximate_eigenvalues.cc b/conex/approximate_eigenvalues.cc
index be49a66..ab19de6 100644
--- a/conex/approximate_eigenvalues.cc
+++ b/conex/approximate_eigenvalues.cc
@@ -211,7 +211,11 @@ Eigen::VectorXd AsymmetricLanczos(const MatrixXd& WS, const MatrixXd& W,
 
   // Execute the three term recurrence (equivalent to Gram-Schmidt):
   V.col(1) = r;
-  V.col(0) = W * r;
+  if (V.col(1).isZero(0)) {
+    // The zero vector does not span a Krylov subspace.
+    V.col(1).setOnes();
+  }
+  V.col(0) = W * V.col(1);
   V = V / std::sqrt(inner_product(V, V));
   Vprev = V;
 
-- 
2.43.0


From 1c2d1d522184cd578934d3d8f58523b3c85402cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:20 +0000
Subject: [PATCH 08/39] fix: reset the iteration count at the start of a solve

---
 conex/cone_program.cc | 3 +++
 conex/cone_program.h  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 3f0626a..84ed732 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -271,6 +271,8 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   }
 
   Initialize(prog, config);
+  prog.stats->num_iter = 0;
+  prog.status_.num_iterations = 0;
   std::cout << "\n";
 
   Eigen::MatrixXd ydata(prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
@@ -366,6 +368,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
         continue;
       }
       prog.status_.solved = 0;
+      prog.status_.num_iterations = prog.stats->num_iter;
       PRINTSTATUS("Factorization failed.");
       return prog.status_.solved;
     }
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 26174fb..821a3c2 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -123,7 +123,7 @@ class Program {
     for (auto& ci : kkt_system_manager_.eqs) {
       if (cnt == i) {
         ci.constraint.get_dual_variable(xi->data());
-        if (!status_.primal_infeasible) {
+        if (!status_.primal_infeasible && stats->num_iter > 0) {
           xi->array() /=
               (stats->sqrt_inv_mu[stats->num_iter - 1] * stats->b_scaling());
         }
-- 
2.43.0


From 324fd12a67c875aee469fcddf7414e373caed888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:46 +0000
Subject: [PATCH 09/39] fix: do not report a point with non-finite entries as
 solved

---
 conex/cone_program.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 84ed732..7ec7012 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -497,6 +497,9 @@ bool Solve(Program& prog, const SolverConfiguration& config,
         cx * newton_step_parameters.inv_sqrt_mu <= -.5;
     prog.status_.dual_infeasible =
         by * newton_step_parameters.inv_sqrt_mu >= .5;
+  } else if (!yout.allFinite()) {
+    PRINTSTATUS("Numerical failure.");
+    prog.status_.solved = 0;
   } else {
     prog.status_.solved = true;
   }
-- 
2.43.0


From 53e92cde0fa7d14bcbad3349829627bda08d1b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:10 +0000
Subject: [PATCH 10/39] fix: do not report an uncentered point as solved

---
 conex/cone_program.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 7ec7012..c05b0ba 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -283,6 +283,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   double cx = 1;
   double by = -1;
   double kkt_error = 0;
+  double d_inf = 0;
 
   StepOptions newton_step_parameters;
   newton_step_parameters.affine = 0;
@@ -440,7 +441,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     END_TIMER
 
     const double d_2 = std::sqrt(std::fabs(info.normsqrd));
-    const double d_inf = std::fabs(info.norminfd);
+    d_inf = std::fabs(info.norminfd);
     by = b.col(0).dot(y.col(0)) * 1.0 /
          (newton_step_parameters.inv_sqrt_mu * c_scaling);
     // inv_sqrt_mu * <c, x> = c' Q(w^{1/2}) (e + d)
@@ -527,7 +528,11 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   }
 
   if (prog.status_.solved) {
-    if (max_iters_reached) {
+    if (!(d_inf <= std::max(1.0, config.final_centering_tolerance))) {
+      // The slack Q(w^{-1/2})(e - d) may not be in the cone.
+      prog.status_.solved = false;
+      PRINTSTATUS("Centering failed.");
+    } else if (max_iters_reached) {
       prog.status_.solved = false;
       PRINTSTATUS("Terminating at maximum iteration limit.");
     } else {
-- 
2.43.0


From 051eb4128a4b82a5f865e80bd8da23a09a5917ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 11/39] fix: bound the step norm of dense matrix inequalities
 from below by its root mean square

---
 conex/psd_constraint.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conex/psd_constraint.cc b/conex/psd_constraint.cc
index 579070a..fc96bae 100644
--- a/conex/psd_constraint.cc
+++ b/conex/psd_constraint.cc
@@ -79,6 +79,13 @@ void PrepareStep(PsdConstraint* o, const StepOptions& opt, const Ref& y,
   WSWS = WS * WS;
   double norm2 = WSWS.trace() + 2 * WS.trace() + Rank(*o);
 
+  // The eigenvalue estimates miss directions orthogonal to the starting vector
+  // (e.g., if the slack is diagonal).
+  const double root_mean_square = std::sqrt(std::fabs(norm2) / n);
+  if (norminf < root_mean_square) {
+    norminf = root_mean_square;
+  }
+
   info->norminfd = norminf;
   info->normsqrd = norm2;
 }
-- 
2.43.0


From 9370cde96d8d724b20a7b01a874e73a012973a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:46 +0000
Subject: [PATCH 12/39] fix: bound the step norm of hermitian matrix
 inequalities from below by its root mean square

---
 conex/hermitian_psd.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 8c09c88..749a788 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -65,9 +65,16 @@ void PrepareStep(HermitianPsdConstraint<T>* o, const StepOptions& opt,
   }
 
   auto WSWS = T::Multiply(WS, WS);
+  const double norm2 = WSWS.at(0).trace() + 2 * WS.at(0).trace() + Rank(*o);
+
+  // The eigenvalue estimates can be poor for an unlucky starting vector.
+  const double root_mean_square = std::sqrt(std::fabs(norm2) / n);
+  if (norminf < root_mean_square) {
+    norminf = root_mean_square;
+  }
 
   info->norminfd = norminf;
-  info->normsqrd = WSWS.at(0).trace() + 2 * WS.at(0).trace() + Rank(*o);
+  info->normsqrd = norm2;
 }
 
 template <typename T>
-- 
2.43.0


From 05a892758b74b7fe5c8c73aa20eea3a3dc5fc06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:13 +0000
Subject: [PATCH 13/39] fix: refine solutions of systems whose factorisation
 was regularised

---
 conex/RLDLT.h       |  3 ++-
 conex/kkt_solver.cc | 18 ++++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/conex/RLDLT.h b/conex/RLDLT.h
index 0d90321..8d394fc 100644
--- a/conex/RLDLT.h
+++ b/conex/RLDLT.h
@@ -316,6 +316,7 @@ struct rldlt_inplace<Lower> {
         } else {
           mat.coeffRef(0, 0) = regularization_value;
         }
+        ret = false;
       }
       transpositions.setIdentity();
       if (size == 0)
@@ -326,7 +327,7 @@ struct rldlt_inplace<Lower> {
         sign = NegativeSemiDef;
       else
         sign = ZeroSign;
-      return true;
+      return ret;
     }
 
     for (Index k = 0; k < size; ++k) {
diff --git a/conex/kkt_solver.cc b/conex/kkt_solver.cc
index 442ccbb..71cf8d0 100644
--- a/conex/kkt_solver.cc
+++ b/conex/kkt_solver.cc
@@ -187,9 +187,18 @@ bool T::Factor() {
     if (use_cholesky_) {
       return BlockTriangularOperations::BlockCholeskyInPlace(&mat.workspace_);
     } else {
+      const VectorXd assembled = mat.memory_;
       bool no_regularization = BlockTriangularOperations::BlockLDLTInPlace(
           &mat.workspace_, &factorization);
       factorization_regularized_ = !no_regularization;
+      if (factorization_regularized_ && iterative_refinement_iterations_ <= 0) {
+        // The factors are those of a perturbed system, so solutions need to be
+        // refined.
+        const VectorXd factors = mat.memory_;
+        mat.memory_ = assembled;
+        kkt_matrix_ = KKTMatrix();
+        mat.memory_ = factors;
+      }
       return true;
     }
   } else {
@@ -230,8 +239,13 @@ void T::SolveInPlace(Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>* b) const {
     return;
   }
 
+  int refinement_iterations = iterative_refinement_iterations_;
+  if (!use_cholesky_ && factorization_regularized_ &&
+      refinement_iterations <= 0) {
+    refinement_iterations = 1;
+  }
   Eigen::VectorXd total_residual;
-  if (iterative_refinement_iterations_ > 0) {
+  if (refinement_iterations > 0) {
     total_residual = *b;
   }
   b_permuted_ = Pt.transpose() * (*b);
@@ -245,7 +259,7 @@ void T::SolveInPlace(Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>* b) const {
   }
 
   *b = Pt * b_permuted_;
-  for (int i = 0; i < iterative_refinement_iterations_; i++) {
+  for (int i = 0; i < refinement_iterations; i++) {
     auto& y = *b;
     const VectorXd residual = total_residual - kkt_matrix_ * y;
     b_permuted_ = Pt.transpose() * (residual);
-- 
2.43.0


From 613e3a882ff9d74dde1446f0340041135b9c5845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:11 +0000
Subject: [PATCH 14/39] fix: account for quadratic costs when preparing dual
 variables

---
 conex/cone_program.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index c05b0ba..b813e47 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -213,6 +213,27 @@ double ComputeMuFromDivergence(ConstraintManager<Container>& constraints,
   return inv_sqrt_mu;
 }
 
+// Subtracts Qy from b, where Q is the sum of the quadratic costs, i.e., of the
+// blocks of rank zero that have no dual variables.
+void SubtractGradientOfQuadraticCosts(ConstraintManager<Container>* constraints,
+                                      const Ref& y, DenseMatrix* b) {
+  int i = 0;
+  for (auto& ci : constraints->eqs) {
+    const auto& vars = constraints->cliques.at(i);
+    if (Rank(ci.constraint) == 0 && constraints->dual_vars.at(i).empty()) {
+      SchurComplementSystem sys(vars.size());
+      VectorXd memory(SizeOf(sys));
+      Initialize(&sys, memory.data());
+      ConstructSchurComplementSystem(&ci.constraint, true, &sys);
+      VectorXd gradient = sys.G * Vars(y, vars);
+      for (size_t j = 0; j < vars.size(); j++) {
+        (*b)(vars.at(j), 0) -= gradient(j);
+      }
+    }
+    i++;
+  }
+}
+
 void ApplyLimits(double* x, double lb, double ub) {
   if (*x > ub) {
     *x = ub;
@@ -511,6 +532,9 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     solver->Factor();
     DenseMatrix bres =
         newton_step_parameters.inv_sqrt_mu * b * b_scaling - 1 * prog.sys.AW;
+    if (prog.contains_quadratic_costs_) {
+      SubtractGradientOfQuadraticCosts(&prog.kkt_system_manager_, y, &bres);
+    }
     y2 = solver->Solve(bres);
 
     newton_step_parameters.affine = true;
-- 
2.43.0


From 78929208bc7ba9ff7cae7a72c3a342392669fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:00 +0000
Subject: [PATCH 15/39] fix: initialise the iteration count of new statistics

---
 conex/workspace.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/workspace.h b/conex/workspace.h
index 3766a4c..4380c2d 100644
--- a/conex/workspace.h
+++ b/conex/workspace.h
@@ -111,7 +111,7 @@ struct WorkspaceStats {
     return *c_scaling_;
   }
 
-  int num_iter;
+  int num_iter = 0;
   int max_iter_;
   bool initialized = false;
 };
-- 
2.43.0


From 44de8b55052995c38095dc9123e0f61b825c3709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:00 +0000
Subject: [PATCH 16/39] fix: keep the scaling of vector cones when preparing
 dual variables

---
 conex/quadratic_cone_constraint.cc | 5 +++++
 conex/soc_constraint.cc            | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index 11dca63..61d43db 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -171,6 +171,11 @@ void GetWeightedSlackEigenvalues(QuadraticConstraintBase* o, const Ref& y,
 
 void PrepareStep(QuadraticConstraintBase* o, const StepOptions& opt,
                  const Ref& y, StepInfo* info) {
+  if (opt.affine) {
+    // Dual variables are not available, and no step follows.
+    return;
+  }
+
   Eigen::internal::set_is_malloc_allowed(false);
   // d =  e - Q(w^{1/2})(C-A^y)
   double& wsqrt_q0 = *o->workspace_.W0;
diff --git a/conex/soc_constraint.cc b/conex/soc_constraint.cc
index f073c21..46438a5 100644
--- a/conex/soc_constraint.cc
+++ b/conex/soc_constraint.cc
@@ -250,6 +250,11 @@ bool TakeStep(SOCConstraint* o, const StepOptions& opt) {
 
 void PrepareStep(SOCConstraint* o, const StepOptions& opt, const Ref& y,
                  StepInfo* info) {
+  if (opt.affine) {
+    // Dual variables are not available, and no step follows.
+    return;
+  }
+
   Eigen::VectorXd minus_s_data(o->workspace_.n_ + 1);
   Ref minus_s(minus_s_data.data(), o->workspace_.n_ + 1, 1);
   o->ComputeNegativeSlack(opt.c_weight, y, &minus_s);
-- 
2.43.0


From 40454c466875364cebf8fd37457ca8c001d8170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:00 +0000
Subject: [PATCH 17/39] fix: reach the barrier target of warm starts whose
 rescaling is disabled

---
 conex/cone_program.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index b813e47..c0f7247 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -364,8 +364,9 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     AssembleSchurComplementResiduals(&prog.kkt_system_manager_, &prog.sys);
     END_TIMER
 
-    if (i < 1 && config.enable_rescaling) {
-      if (config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
+    if (i < 1) {
+      if (config.enable_rescaling &&
+          config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
         b_scaling = 1.0 / (1 + b.norm());
         c_scaling = 1.0 / (1 + prog.sys.AQc.norm());
       }
-- 
2.43.0


From 855a5b9af90ef88f939f7c1c5e58236e460fc5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:00 +0000
Subject: [PATCH 18/39] fix: warm starts of new and of extended programs begin
 at the identity

---
 conex/cone_program.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index c0f7247..692f160 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -76,7 +76,11 @@ void ConstructSchurComplementSystem(std::vector<T*>* c, bool initialize,
 }
 
 bool Initialize(Program& prog, const SolverConfiguration& config) {
-  if (!prog.is_initialized ||
+  const size_t num_workspaces = prog.workspaces.size();
+  // Constraints may have been added since the last initialization.
+  const bool is_outdated =
+      num_workspaces != 2 * prog.kkt_system_manager_.eqs.size() + 2;
+  if (!prog.is_initialized || is_outdated ||
       config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
     prog.stats = std::make_unique<WorkspaceStats>(config.max_iterations);
     auto& solver = prog.solver;
@@ -85,8 +89,14 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
     prog.sys.m_ = prog.kkt_system_manager_.SizeOfKKTSystem();
     prog.sys.residual_only_ = true;
 
+    const auto workspace_size = prog.workspace_data_->size();
     prog.InitializeWorkspace();
-    if (config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
+    // There is no scaling point to start from if the workspace is new or was
+    // the one of other constraints.
+    const bool is_new = prog.workspace_data_->size() != workspace_size ||
+                        (num_workspaces > 0 && is_outdated);
+    if (is_new ||
+        config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
       prog.stats->b_scaling() = 1;
       prog.stats->c_scaling() = 1;
       SetIdentity(&prog.constraints_);
-- 
2.43.0


From a992b8f515d9b0482c6248efe6a6cb5aff9fbfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:00 +0000
Subject: [PATCH 19/39] fix: make room for the statistics of warm starts with a
 larger iteration limit

---
 conex/cone_program.cc | 9 +++++++++
 conex/cone_program.h  | 1 +
 2 files changed, 10 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 692f160..02f400a 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -117,6 +117,15 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
     }
     solver->Bind(kkt);
     END_TIMER
+  } else if (prog.stats->max_iter_ < config.max_iterations) {
+    // The workspace has no room for the statistics of this solve.
+    const double b_scaling = prog.stats->b_scaling();
+    const double c_scaling = prog.stats->c_scaling();
+    prog.stats->max_iter_ = config.max_iterations;
+    prog.stats_memory_.resize(SizeOf(*prog.stats));
+    Initialize(prog.stats.get(), prog.stats_memory_.data());
+    prog.stats->b_scaling() = b_scaling;
+    prog.stats->c_scaling() = c_scaling;
   }
   return true;
 }
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 821a3c2..ca67485 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -228,6 +228,7 @@ class Program {
   std::unique_ptr<SupernodalKKTSolver> solver;
   std::vector<SupernodalAssemblerBase*> kkt;
   Eigen::VectorXd memory_;
+  Eigen::VectorXd stats_memory_;
   Eigen::VectorXd* workspace_data_;
   bool is_initialized = false;
   bool contains_quadratic_costs_ = false;
-- 
2.43.0


From ce6d319db10e16d4c9e0e64f93eaeaf24e4720e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:00 +0000
Subject: [PATCH 20/39] fix: warm starts do not begin at dual variables outside
 of the cone

---
 conex/cone_program.cc | 6 ++++++
 conex/cone_program.h  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 02f400a..66d5abe 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -311,6 +311,10 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   }
 
   Initialize(prog, config);
+  if (!prog.scaling_is_interior_) {
+    SetIdentity(&prog.constraints_);
+    prog.scaling_is_interior_ = true;
+  }
   prog.stats->num_iter = 0;
   prog.status_.num_iterations = 0;
   std::cout << "\n";
@@ -564,6 +568,8 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     StepInfo info;
     PrepareStep(&prog.kkt_system_manager_, newton_step_parameters, y2map,
                 &info);
+    // The dual variables replace the scaling point.
+    prog.scaling_is_interior_ = d_inf < 1;
   }
 
   if (prog.status_.solved) {
diff --git a/conex/cone_program.h b/conex/cone_program.h
index ca67485..fcb521b 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -231,6 +231,7 @@ class Program {
   Eigen::VectorXd stats_memory_;
   Eigen::VectorXd* workspace_data_;
   bool is_initialized = false;
+  bool scaling_is_interior_ = true;
   bool contains_quadratic_costs_ = false;
   ConexStatus status_;
 
-- 
2.43.0


From 9cf1877349a585390ee397eab7d0914a17de3cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:06 +0000
Subject: [PATCH 21/39] fix: aborted warm starts begin at the barrier parameter
 of cold starts

---
 conex/cone_program.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 66d5abe..85852c4 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -367,6 +367,10 @@ bool Solve(Program& prog, const SolverConfiguration& config,
       std::cout << "i: " << i << ", ";
     }
 #endif
+    if (warmstart_aborted) {
+      // The parameter belonged to the abandoned scaling.
+      newton_step_parameters.inv_sqrt_mu = 0;
+    }
     bool final_centering =
         (newton_step_parameters.inv_sqrt_mu >= inv_sqrt_mu_max) ||
         (kkt_error > config.kkt_error_tolerance) ||
@@ -522,8 +526,9 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     std::cout << std::endl;
 #endif
 
-    if (final_centering ||
-        newton_step_parameters.inv_sqrt_mu >= inv_sqrt_mu_max) {
+    if (!warmstart_aborted &&
+        (final_centering ||
+         newton_step_parameters.inv_sqrt_mu >= inv_sqrt_mu_max)) {
       if (d_inf <= config.final_centering_tolerance) {
         max_iters_reached = false;
         break;
-- 
2.43.0


From fc858d222165c1dc880463b15cdfc44cdddbc3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:19 +0000
Subject: [PATCH 22/39] fix: warm starts do not rely on estimated norms of the
 last step

---
 conex/cone_program.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 85852c4..853075a 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -328,6 +328,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   double by = -1;
   double kkt_error = 0;
   double d_inf = 0;
+  double d_2 = 1;
 
   StepOptions newton_step_parameters;
   newton_step_parameters.affine = 0;
@@ -489,7 +490,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     }
     END_TIMER
 
-    const double d_2 = std::sqrt(std::fabs(info.normsqrd));
+    d_2 = std::sqrt(std::fabs(info.normsqrd));
     d_inf = std::fabs(info.norminfd);
     by = b.col(0).dot(y.col(0)) * 1.0 /
          (newton_step_parameters.inv_sqrt_mu * c_scaling);
@@ -573,8 +574,9 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     StepInfo info;
     PrepareStep(&prog.kkt_system_manager_, newton_step_parameters, y2map,
                 &info);
-    // The dual variables replace the scaling point.
-    prog.scaling_is_interior_ = d_inf < 1;
+    // The dual variables replace the scaling point. They are within the cone
+    // if the last step was small.
+    prog.scaling_is_interior_ = d_2 < .5;
   }
 
   if (prog.status_.solved) {
-- 
2.43.0


From 491352333fd6c6c60ab55325d2f40b930a6d9227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:48 +0000
Subject: [PATCH 23/39] fix: constraints created empty start with zero data

The Lorentz cone left its order and matrices uninitialised, and neither it nor
the Hermitian constraint handled programs with more variables than the
constraint had received.
---
 conex/hermitian_psd.cc  |  3 +++
 conex/hermitian_psd.h   |  3 ++-
 conex/soc_constraint.cc | 18 +++++++++++-------
 conex/soc_constraint.h  |  9 +++++++--
 4 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 749a788..a83d1ea 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -185,6 +185,9 @@ void ConstructSchurComplementSystem(HermitianPsdConstraint<T>* o,
   typename T::Matrix AW;
   typename T::Matrix WAW;
   if (initialize) {
+    if (G->rows() != m) {
+      sys->setZero();
+    }
     for (int i = 0; i < m; i++) {
       if constexpr (std::is_same<T, Octonions>::value) {
         WAW = T::QuadraticRepresentation(W, o->constraint_matrices_.at(i));
diff --git a/conex/hermitian_psd.h b/conex/hermitian_psd.h
index 84f3485..18b1e1a 100644
--- a/conex/hermitian_psd.h
+++ b/conex/hermitian_psd.h
@@ -42,7 +42,8 @@ class HermitianPsdConstraint {
  public:
   using Matrix = typename T::Matrix;
 
-  HermitianPsdConstraint(int n) : rank_(n), workspace_(n) {}
+  HermitianPsdConstraint(int n)
+      : rank_(n), workspace_(n), constraint_affine_(T::Zero(n, n)) {}
 
   HermitianPsdConstraint(int n, const std::vector<Matrix>& a, const Matrix& c)
       : rank_(n),
diff --git a/conex/soc_constraint.cc b/conex/soc_constraint.cc
index 46438a5..07c7da9 100644
--- a/conex/soc_constraint.cc
+++ b/conex/soc_constraint.cc
@@ -192,7 +192,7 @@ double NormInf(double x0, const DenseMatrix& x) {
 
 void SOCConstraint::ComputeNegativeSlack(double inv_sqrt_mu, const Ref& y,
                                          Ref* minus_s) {
-  minus_s->noalias() = (constraint_matrix_)*y;
+  minus_s->noalias() = (constraint_matrix_)*y.topRows(number_of_variables());
   minus_s->noalias() -= (constraint_affine_)*inv_sqrt_mu;
 }
 
@@ -292,16 +292,20 @@ void ConstructSchurComplementSystem(SOCConstraint* o, bool initialize,
     WA.col(i) = QuadraticRepresentation(Wsqrt, WA.col(i));
   }
 
+  int m = o->number_of_variables();
   if (initialize) {
-    (*G).noalias() = 2 * WA.transpose() * WA;
-    sys->AW.noalias() = 2 * o->constraint_matrix_.transpose() * W;
-    sys->AQc.noalias() = 2 * WA.transpose() * WsqrtC;
+    if (G->rows() != m) {
+      sys->setZero();
+    }
+    (*G).topLeftCorner(m, m).noalias() = 2 * WA.transpose() * WA;
+    sys->AW.topRows(m).noalias() = 2 * o->constraint_matrix_.transpose() * W;
+    sys->AQc.topRows(m).noalias() = 2 * WA.transpose() * WsqrtC;
     sys->inner_product_of_w_and_c = 2 * WsqrtC(0);
     sys->inner_product_of_c_and_Qc = 2 * WsqrtC.squaredNorm();
   } else {
-    (*G).noalias() += 2 * WA.transpose() * WA;
-    sys->AW.noalias() += 2 * o->constraint_matrix_.transpose() * W;
-    sys->AQc.noalias() += 2 * WA.transpose() * WsqrtC;
+    (*G).topLeftCorner(m, m).noalias() += 2 * WA.transpose() * WA;
+    sys->AW.topRows(m).noalias() += 2 * o->constraint_matrix_.transpose() * W;
+    sys->AQc.topRows(m).noalias() += 2 * WA.transpose() * WsqrtC;
     sys->inner_product_of_w_and_c += 2 * WsqrtC(0);
     sys->inner_product_of_c_and_Qc += 2 * WsqrtC.squaredNorm();
   }
diff --git a/conex/soc_constraint.h b/conex/soc_constraint.h
index c212c4e..8295903 100644
--- a/conex/soc_constraint.h
+++ b/conex/soc_constraint.h
@@ -11,12 +11,17 @@ class SOCConstraint {
   SOCConstraint(const T& constraint_matrix, const T& constraint_affine)
       : workspace_(constraint_matrix.rows() - 1),
         constraint_matrix_(constraint_matrix),
-        constraint_affine_(constraint_affine) {
+        constraint_affine_(constraint_affine),
+        n_(constraint_matrix.rows() - 1) {
     assert(constraint_matrix_.rows() == constraint_affine_.rows());
   }
 
   // Lorentz cone a subset of R^(n+1).
-  SOCConstraint(int n) : workspace_(n), n_(n) {}
+  SOCConstraint(int n)
+      : workspace_(n),
+        constraint_matrix_(DenseMatrix::Zero(n + 1, 0)),
+        constraint_affine_(DenseMatrix::Zero(n + 1, 1)),
+        n_(n) {}
 
   WorkspaceSOC* workspace() { return &workspace_; }
 
-- 
2.43.0


From 4b7c30efb932a4d06bcc6b898da800140312c63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:48 +0000
Subject: [PATCH 24/39] fix: reject updates of entries out of range

Negative indices, hyper-complex dimensions and variables beyond those of the
constraint were written out of bounds.
---
 conex/cone_program.h       | 6 ++++++
 conex/hermitian_psd.cc     | 6 ++++--
 conex/linear_constraint.cc | 1 +
 conex/quadratic_cost.cc    | 1 +
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index fcb521b..4826f7f 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -150,6 +150,12 @@ class Program {
     int cnt = 0;
     for (auto& ci : kkt_system_manager_.eqs) {
       if (cnt == i) {
+        const int number_of_variables =
+            kkt_system_manager_.cliques.at(i).size() -
+            kkt_system_manager_.dual_vars.at(i).size();
+        CONEX_DEMAND(variable >= 0 && (variable < number_of_variables ||
+                                       GetNumberOfVariables() == 0),
+                     "Variable out of bounds.");
         return UpdateLinearOperator(&ci.constraint, value, variable, row, col,
                                     hyper_complex_dim);
       }
diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index a83d1ea..cc29936 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -258,9 +258,10 @@ template void ConstructSchurComplementSystem(
 template <typename H>
 bool UpdateLinearOperator(HermitianPsdConstraint<H>* o, double val, int var,
                           int r, int c, int dim) {
-  CONEX_DEMAND(dim < H::HyperComplexDimension(),
+  CONEX_DEMAND(dim >= 0 && dim < H::HyperComplexDimension(),
                "Complex dimension out of bounds.");
   CONEX_DEMAND(r < o->rank_ && c < o->rank_, "Matrix dimension out of bounds.");
+  CONEX_DEMAND(r >= 0 && c >= 0, "Indices cannot be negative.");
   CONEX_DEMAND(!(val != 0 && r == c && dim > 0),
                "Imaginary components must be skew-symmetric.");
 
@@ -295,9 +296,10 @@ template bool UpdateLinearOperator(HermitianPsdConstraint<Octonions>* o,
 template <typename H>
 bool UpdateAffineTerm(HermitianPsdConstraint<H>* o, double val, int r, int c,
                       int dim) {
-  CONEX_DEMAND(dim < H::HyperComplexDimension(),
+  CONEX_DEMAND(dim >= 0 && dim < H::HyperComplexDimension(),
                "Complex dimension out of bounds.");
   CONEX_DEMAND(r < o->rank_ && c < o->rank_, "Matrix dimension out of bounds.");
+  CONEX_DEMAND(r >= 0 && c >= 0, "Indices cannot be negative.");
   CONEX_DEMAND(!(val != 0 && r == c && dim > 0),
                "Imaginary components must be skew-symmetric.");
 
diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index be56574..a3f1605 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -210,6 +210,7 @@ bool UpdateLinearOperator(LinearConstraint* o, double val, int var, int r,
   CONEX_DEMAND(c == 0, "Linear constraint is not matrix valued.");
   CONEX_DEMAND(r < o->constraint_matrix_.rows(), "Row index out of bounds.");
   CONEX_DEMAND((var >= 0) && (r >= 0), "Indices cannot be negative.");
+  CONEX_DEMAND(var < o->number_of_variables(), "Variable out of bounds.");
 
   o->constraint_matrix_(r, var) = val;
   return CONEX_SUCCESS;
diff --git a/conex/quadratic_cost.cc b/conex/quadratic_cost.cc
index 278f37c..a30ed42 100644
--- a/conex/quadratic_cost.cc
+++ b/conex/quadratic_cost.cc
@@ -34,6 +34,7 @@ class QuadraticFunction {
                                int dim) {
     CONEX_DEMAND(dim == 0, "Quadratic cost must be real valued matrix.");
     CONEX_DEMAND(r < o->A_.rows() && c < o->A_.cols(), "Index out of bounds");
+    CONEX_DEMAND(r >= 0 && c >= 0, "Indices cannot be negative.");
     o->A_(r, c) = val;
     return CONEX_SUCCESS;
   }
-- 
2.43.0


From 04d0c76a216a43265974085f70a537deb3f4ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:48 +0000
Subject: [PATCH 25/39] fix: programs can be extended and updated after a solve

The sanity check on the number of workspaces is wrong once a program that was
solved has been given more constraints (or has several).
---
 interfaces/conex.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 6ce1495..9ae92e2 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -21,7 +21,8 @@
   CONEX_DEMAND(x, "Program pointer is null.");                             \
   prog = static_cast<Program*>(x);                                         \
   if (prog->is_initialized) {                                              \
-    if (prog->NumberOfConstraints() + 2 !=                                 \
+    /* Two workspaces per constraint at the time of initialization. */     \
+    if (2 * prog->NumberOfConstraints() + 2 <                              \
         static_cast<int>(prog->workspaces.size())) {                       \
       CONEX_DEMAND(false, "Program corrupted or invalid pointer.");        \
     }                                                                      \
-- 
2.43.0


From 6ef9413299833b4c80b3e500aca7689976117619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:48 +0000
Subject: [PATCH 26/39] fix: reject constraints on variables that do not exist

Negative variables and matrices with more columns than variables were
accepted, failures were not returned, and the number of rows was not checked.
---
 conex/cone_program.cc      |  7 ++++---
 conex/cone_program.h       |  6 ++++++
 conex/constraint_manager.h |  8 +++-----
 conex/quadratic_cost.cc    |  4 ++--
 conex/quadratic_cost.h     |  2 +-
 interfaces/conex.cc        | 13 ++++++++++---
 6 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 853075a..01a3a48 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -621,9 +621,10 @@ bool Solve(const DenseMatrix& b, Program& prog,
 
 bool Program::AddQuadraticCost(const DenseMatrix& Q,
                                const std::vector<int>& vars) {
-  contains_quadratic_costs_ = true;
-  conex::AddQuadraticCost(this, Q, vars);
-  bool failure = false;
+  bool failure = conex::AddQuadraticCost(this, Q, vars);
+  if (!failure) {
+    contains_quadratic_costs_ = true;
+  }
   return failure;
 }
 
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 4826f7f..7498b22 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -196,6 +196,9 @@ class Program {
 
   template <typename T>
   bool AddConstraint(T&& d) {
+    if (d.number_of_variables() > GetNumberOfVariables()) {
+      return CONEX_FAILURE;
+    }
     if constexpr (!std::is_same<T, EqualityConstraints>::value) {
       bool result = kkt_system_manager_.AddConstraint<T>(std::forward<T>(d));
       if (result == CONEX_SUCCESS) {
@@ -210,6 +213,9 @@ class Program {
 
   template <typename T>
   bool AddConstraint(T&& d, const std::vector<int>& variables) {
+    if (d.number_of_variables() > static_cast<int>(variables.size())) {
+      return CONEX_FAILURE;
+    }
     if constexpr (!std::is_same<T, EqualityConstraints>::value) {
       bool result =
           kkt_system_manager_.AddConstraint<T>(std::forward<T>(d), variables);
diff --git a/conex/constraint_manager.h b/conex/constraint_manager.h
index 851d694..1e25fbd 100644
--- a/conex/constraint_manager.h
+++ b/conex/constraint_manager.h
@@ -12,7 +12,7 @@ inline int IsUnique(int N, const std::vector<int>& x) {
   Eigen::VectorXd y(N);
   y.setZero();
   for (auto& xi : x) {
-    if (xi >= N) {
+    if (xi < 0 || xi >= N) {
       return false;
     }
     y(xi)++;
@@ -53,8 +53,7 @@ class ConstraintManager {
     for (size_t i = 0; i < clique.size(); i++) {
       clique[i] = i;
     }
-    AddConstraint(x, clique);
-    return CONEX_SUCCESS;
+    return AddConstraint(x, clique);
   }
 
   template <typename T>
@@ -90,8 +89,7 @@ class ConstraintManager {
     for (size_t i = 0; i < clique.size(); i++) {
       clique[i] = i;
     }
-    AddEqualityConstraint(std::forward<EqualityConstraints>(x), clique);
-    return CONEX_SUCCESS;
+    return AddEqualityConstraint(std::forward<EqualityConstraints>(x), clique);
   }
 
   // Use a list so that we do not trigger reallocations.
diff --git a/conex/quadratic_cost.cc b/conex/quadratic_cost.cc
index a30ed42..bb7c7df 100644
--- a/conex/quadratic_cost.cc
+++ b/conex/quadratic_cost.cc
@@ -71,9 +71,9 @@ class QuadraticFunction {
 };
 }  // namespace
 
-void AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
+bool AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
                       const std::vector<int>& z) {
-  conex_prog->AddConstraint(QuadraticFunction{Qi}, z);
+  return conex_prog->AddConstraint(QuadraticFunction{Qi}, z);
 }
 
 }  // namespace conex
diff --git a/conex/quadratic_cost.h b/conex/quadratic_cost.h
index 852aeda..a0a3016 100644
--- a/conex/quadratic_cost.h
+++ b/conex/quadratic_cost.h
@@ -3,7 +3,7 @@
 
 namespace conex {
 
-void AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
+bool AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
                       const std::vector<int>& z);
 
 }  // namespace conex
diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 9ae92e2..0e30f51 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -156,7 +156,9 @@ int CONEX_AddDenseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
   DenseLMIConstraint T3{n, Avect, Cmap};
   auto& program = *reinterpret_cast<Program*>(prog);
   int constraint_id = program.NumberOfConstraints();
-  program.AddConstraint(T3);
+  if (program.AddConstraint(T3) != CONEX_SUCCESS) {
+    return -1;
+  }
   return constraint_id;
 }
 
@@ -184,7 +186,9 @@ int CONEX_AddSparseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
   conex::DenseLMIConstraint T3{Avect, Cmap};
   auto& program = *reinterpret_cast<Program*>(prog);
   int constraint_id = program.NumberOfConstraints();
-  program.AddConstraint(T3, variables);
+  if (program.AddConstraint(T3, variables) != CONEX_SUCCESS) {
+    return -1;
+  }
   return constraint_id;
 }
 
@@ -225,7 +229,9 @@ int CONEX_AddDenseLinearConstraint(void* prog, const double* A, int Ar, int Ac,
   auto& program = *reinterpret_cast<Program*>(prog);
 
   int constraint_id = program.NumberOfConstraints();
-  program.AddConstraint(T3);
+  if (program.AddConstraint(T3) != CONEX_SUCCESS) {
+    return -1;
+  }
   return constraint_id;
 }
 
@@ -318,6 +324,7 @@ CONEX_STATUS CONEX_NewLinearMatrixInequality(void* p, int order,
 
 CONEX_STATUS CONEX_NewLinearInequality(void* program, int num_rows,
                                        int* constraint_id) {
+  CONEX_DEMAND(num_rows >= 1, "Number of rows must be > 0.");
   CONEX_DEMAND(constraint_id, "Received output null pointer.");
   Program* prg;
   SAFER_CAST_TO_Program(program, prg);
-- 
2.43.0


From 84acb5f474bf9ca31a0b9d64e5f7e5a0df68ecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:48 +0000
Subject: [PATCH 27/39] fix: dual variables and statistics can be queried
 before a solve

---
 conex/cone_program.h | 2 +-
 conex/constraint.h   | 3 +++
 interfaces/conex.cc  | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index 7498b22..1692e5d 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -123,7 +123,7 @@ class Program {
     for (auto& ci : kkt_system_manager_.eqs) {
       if (cnt == i) {
         ci.constraint.get_dual_variable(xi->data());
-        if (!status_.primal_infeasible && stats->num_iter > 0) {
+        if (stats && !status_.primal_infeasible && stats->num_iter > 0) {
           xi->array() /=
               (stats->sqrt_inv_mu[stats->num_iter - 1] * stats->b_scaling());
         }
diff --git a/conex/constraint.h b/conex/constraint.h
index 5786be1..445a1ad 100644
--- a/conex/constraint.h
+++ b/conex/constraint.h
@@ -157,6 +157,9 @@ class Constraint {
     }
 
     void do_get_dual_variable(double* var) override {
+      if (do_dual_variable_size() == 0) {
+        return;
+      }
       memcpy(static_cast<void*>(var),
              static_cast<void*>(data->workspace()->W.data()),
              sizeof(double) * do_dual_variable_size());
diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 0e30f51..2ffff3c 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -272,7 +272,7 @@ void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
 
   auto& program = *reinterpret_cast<Program*>(prog);
 
-  if (!program.stats->IsInitialized()) {
+  if (!program.stats || !program.stats->IsInitialized()) {
     std::cerr << "No statistics available.";
     return;
   }
-- 
2.43.0


From 1deffcf1e10c784ca70720ad2340f434ca3ac18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:48 +0000
Subject: [PATCH 28/39] fix: default options include the solver and its
 refinement

CONEX_SetDefaultOptions left two fields uninitialised.
---
 interfaces/conex.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 2ffff3c..21621d0 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -261,6 +261,8 @@ void CONEX_SetDefaultOptions(CONEX_SolverConfiguration* c) {
   c->infeasibility_threshold = config.infeasibility_threshold;
   c->kkt_error_tolerance = config.kkt_error_tolerance;
   c->enable_rescaling = config.enable_rescaling;
+  c->iterative_refinement_iterations = config.iterative_refinement_iterations;
+  c->kkt_solver = config.kkt_solver;
 }
 
 void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
-- 
2.43.0


From b53fee9ab5a5b2a7db17f2ca3ff4c0bb47244426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:48 +0000
Subject: [PATCH 29/39] fix: reject objectives and solutions of the wrong
 length

---
 interfaces/conex.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 21621d0..2ba1db6 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -101,6 +101,10 @@ int CONEX_Maximize(void* prog_ptr, const double* b, int br,
   SolverConfiguration config = APIConvertSolverConfiguration(config_input);
 
   Program& prog = *reinterpret_cast<Program*>(prog_ptr);
+  if (br != prog.GetNumberOfVariables() || yr < br) {
+    std::cerr << "Vectors must have one entry per variable.";
+    return 0;
+  }
 
   return Solve(blinear, prog, config, y);
 }
@@ -109,6 +113,10 @@ int CONEX_Solve(void* prog_ptr, const CONEX_SolverConfiguration* config_input,
                 double* y, int yr) {
   SolverConfiguration config = APIConvertSolverConfiguration(config_input);
   Program& prog = *reinterpret_cast<Program*>(prog_ptr);
+  if (yr < prog.GetNumberOfVariables()) {
+    std::cerr << "Vectors must have one entry per variable.";
+    return 0;
+  }
   return Solve(prog, config, y);
 }
 
-- 
2.43.0


From ba0bd30ef616f13b36beaea793307658f3ae1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:53 +0000
Subject: [PATCH 30/39] fix: a warm start whose first factorization fails
 records its iteration

The barrier parameter of that iteration was reported from uninitialised memory.
---
 conex/cone_program.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 01a3a48..9bdd837 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -416,6 +416,11 @@ bool Solve(Program& prog, const SolverConfiguration& config,
         PRINTSTATUS("Aborting warmstart...");
         SetIdentity(&prog.constraints_);
         warmstart_aborted = true;
+        ApplyLimits(&newton_step_parameters.inv_sqrt_mu,
+                    std::sqrt(1.0 / (1e-15 + config.maximum_mu)),
+                    inv_sqrt_mu_max);
+        prog.stats->num_iter = i + 1;
+        prog.stats->sqrt_inv_mu[i] = newton_step_parameters.inv_sqrt_mu;
         continue;
       }
       prog.status_.solved = 0;
-- 
2.43.0


From a41761166bff536f423b71ff43ab117d75174b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:53 +0000
Subject: [PATCH 31/39] fix: refusing to solve with quadratic costs is not
 reported as success

The call returned true, with the status and statistics of the previous solve.
---
 conex/cone_program.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 9bdd837..c18374b 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -274,11 +274,6 @@ void Program::ClearLinearCosts() { linear_cost_.setZero(); }
 
 bool Solve(Program& prog, const SolverConfiguration& config,
            double* primal_variable) {
-  CONEX_DEMAND(prog.contains_quadratic_costs_ == false ||
-                   (config.enable_line_search && !config.enable_rescaling),
-               "Must enable line search and disable rescaling for problems "
-               "with quadratic costs.");
-
   VectorXd bin = -prog.linear_cost_;
 
   auto& constraints = prog.constraints_;
@@ -286,8 +281,19 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   prog.status_.solved = 0;
   prog.status_.primal_infeasible = 0;
   prog.status_.dual_infeasible = 0;
+  prog.status_.num_iterations = 0;
+  if (prog.stats) {
+    prog.stats->num_iter = 0;
+  }
   bool max_iters_reached = true;
 
+  if (prog.contains_quadratic_costs_ &&
+      (!config.enable_line_search || config.enable_rescaling)) {
+    std::cerr << "Must enable line search and disable rescaling for problems "
+                 "with quadratic costs.";
+    return prog.status_.solved;
+  }
+
 #if CONEX_VERBOSE
   std::cout.precision(2);
   std::cout << std::scientific;
@@ -316,7 +322,6 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     prog.scaling_is_interior_ = true;
   }
   prog.stats->num_iter = 0;
-  prog.status_.num_iterations = 0;
   std::cout << "\n";
 
   Eigen::MatrixXd ydata(prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
-- 
2.43.0


From c04f625407976dcb2fbbd555a1d3471d031a3b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:11 +0000
Subject: [PATCH 32/39] fix: add equality constraints given as lvalues as
 equality constraints

---
 conex/cone_program.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index 1692e5d..9c03d12 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -199,7 +199,7 @@ class Program {
     if (d.number_of_variables() > GetNumberOfVariables()) {
       return CONEX_FAILURE;
     }
-    if constexpr (!std::is_same<T, EqualityConstraints>::value) {
+    if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
       bool result = kkt_system_manager_.AddConstraint<T>(std::forward<T>(d));
       if (result == CONEX_SUCCESS) {
         constraints_.push_back(&kkt_system_manager_.eqs.back().constraint);
@@ -207,7 +207,7 @@ class Program {
       return result;
     } else {
       return kkt_system_manager_.AddEqualityConstraint(
-          std::forward<EqualityConstraints>(d));
+          EqualityConstraints(std::forward<T>(d)));
     }
   }
 
@@ -216,7 +216,7 @@ class Program {
     if (d.number_of_variables() > static_cast<int>(variables.size())) {
       return CONEX_FAILURE;
     }
-    if constexpr (!std::is_same<T, EqualityConstraints>::value) {
+    if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
       bool result =
           kkt_system_manager_.AddConstraint<T>(std::forward<T>(d), variables);
       if (result == CONEX_SUCCESS) {
@@ -225,7 +225,7 @@ class Program {
       return result;
     } else {
       return kkt_system_manager_.AddEqualityConstraint(
-          std::forward<EqualityConstraints>(d), variables);
+          EqualityConstraints(std::forward<T>(d)), variables);
     }
   }
 
-- 
2.43.0


From 37c001d16fce302c8bd97476e4d5e564bdf9fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:37 +0000
Subject: [PATCH 33/39] fix: expose the current dual variables of hermitian
 constraints

---
 conex/hermitian_psd.cc | 2 ++
 conex/hermitian_psd.h  | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index cc29936..5cb5428 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -131,6 +131,8 @@ bool TakeStep(HermitianPsdConstraint<Octonions>* o, const StepOptions& opt) {
   }
 
   o->W = GeodesicUpdateScaled(o->W, minus_s);
+  new (&o->workspace_.W) Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>(
+      o->W.at(0).data(), Rank(*o), Rank(*o));
   return true;
 }
 
diff --git a/conex/hermitian_psd.h b/conex/hermitian_psd.h
index 18b1e1a..48feacc 100644
--- a/conex/hermitian_psd.h
+++ b/conex/hermitian_psd.h
@@ -43,7 +43,9 @@ class HermitianPsdConstraint {
   using Matrix = typename T::Matrix;
 
   HermitianPsdConstraint(int n)
-      : rank_(n), workspace_(n), constraint_affine_(T::Zero(n, n)) {}
+      : rank_(n),
+        workspace_(n),
+        constraint_affine_(T::Zero(n, n)) {}
 
   HermitianPsdConstraint(int n, const std::vector<Matrix>& a, const Matrix& c)
       : rank_(n),
@@ -54,6 +56,9 @@ class HermitianPsdConstraint {
   WorkspaceDenseHermitian* workspace() { return &workspace_; }
   friend void SetIdentity(HermitianPsdConstraint* o) {
     o->W = T::Identity(o->rank_);
+    // The workspace exposes the real part of W.
+    new (&o->workspace_.W) Eigen::Map<DenseMatrix, Eigen::Aligned>(
+        o->W.at(0).data(), o->rank_, o->rank_);
   }
   friend int Rank(const HermitianPsdConstraint& o) { return o.rank_; };
 
-- 
2.43.0


From 071e141dbf05fe972979ecf69afdbd25f09f039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:37 +0000
Subject: [PATCH 34/39] fix: hermitian constraints start from the identity

---
 conex/hermitian_psd.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conex/hermitian_psd.h b/conex/hermitian_psd.h
index 48feacc..80f5f65 100644
--- a/conex/hermitian_psd.h
+++ b/conex/hermitian_psd.h
@@ -45,13 +45,15 @@ class HermitianPsdConstraint {
   HermitianPsdConstraint(int n)
       : rank_(n),
         workspace_(n),
-        constraint_affine_(T::Zero(n, n)) {}
+        constraint_affine_(T::Zero(n, n)),
+        W(T::Identity(n)) {}
 
   HermitianPsdConstraint(int n, const std::vector<Matrix>& a, const Matrix& c)
       : rank_(n),
         workspace_(n),
         constraint_matrices_(a),
-        constraint_affine_(c) {}
+        constraint_affine_(c),
+        W(T::Identity(n)) {}
 
   WorkspaceDenseHermitian* workspace() { return &workspace_; }
   friend void SetIdentity(HermitianPsdConstraint* o) {
-- 
2.43.0


From 89d48c5739270da78bc98ff070d0e1feae17761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:07 +0000
Subject: [PATCH 35/39] fix: do not ignore undefined step norms

---
 conex/cone_program.cc | 2 +-
 conex/cone_program.h  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index c18374b..7471b55 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -491,7 +491,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
 
     if (i == 0 &&
         (config.initialization_mode == CONEX_INITIALIZATION_MODE_WARMSTART) &&
-        info.norminfd >= config.warmstart_abort_threshold) {
+        !(info.norminfd < config.warmstart_abort_threshold)) {
       PRINTSTATUS("Aborting warmstart...");
       SetIdentity(&prog.constraints_);
       warmstart_aborted = true;
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 9c03d12..22c34f3 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -1,4 +1,6 @@
 #pragma once
+#include <cmath>
+
 #include "conex/constraint.h"
 #include "conex/constraint_manager.h"
 #include "conex/equality_constraint.h"
@@ -81,7 +83,7 @@ inline void PrepareStep(ConstraintManager<Container>* kkt,
     Eigen::Map<Eigen::MatrixXd, Eigen::Aligned> z(ysegment.data(),
                                                   ysegment.size(), 1);
     PrepareStep(&ci.constraint, newton_step_parameters, z, &info_i);
-    if (info_i.norminfd > info->norminfd) {
+    if (info_i.norminfd > info->norminfd || std::isnan(info_i.norminfd)) {
       info->norminfd = info_i.norminfd;
     }
     info->normsqrd += info_i.normsqrd;
-- 
2.43.0


From e69617e7a4626107ebfe8771dde5056a5c96dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:24 +0000
Subject: [PATCH 36/39] fix: refine solutions of systems with tiny pivots until
 they stop improving

---
 conex/kkt_solver.cc | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/conex/kkt_solver.cc b/conex/kkt_solver.cc
index 71cf8d0..22d714f 100644
--- a/conex/kkt_solver.cc
+++ b/conex/kkt_solver.cc
@@ -191,6 +191,12 @@ bool T::Factor() {
       bool no_regularization = BlockTriangularOperations::BlockLDLTInPlace(
           &mat.workspace_, &factorization);
       factorization_regularized_ = !no_regularization;
+      for (const auto& f : factorization) {
+        // Tiny pivots of multipliers are as inaccurate as replaced ones.
+        if (f.rows() > 0 && f.vectorD().cwiseAbs().minCoeff() < 1e-5) {
+          factorization_regularized_ = true;
+        }
+      }
       if (factorization_regularized_ && iterative_refinement_iterations_ <= 0) {
         // The factors are those of a perturbed system, so solutions need to be
         // refined.
@@ -240,9 +246,10 @@ void T::SolveInPlace(Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>* b) const {
   }
 
   int refinement_iterations = iterative_refinement_iterations_;
-  if (!use_cholesky_ && factorization_regularized_ &&
-      refinement_iterations <= 0) {
-    refinement_iterations = 1;
+  const bool regularized = !use_cholesky_ && factorization_regularized_;
+  const int max_refinement_iterations = 20;
+  if (regularized && refinement_iterations < max_refinement_iterations) {
+    refinement_iterations = max_refinement_iterations;
   }
   Eigen::VectorXd total_residual;
   if (refinement_iterations > 0) {
@@ -259,9 +266,21 @@ void T::SolveInPlace(Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>* b) const {
   }
 
   *b = Pt * b_permuted_;
+  VectorXd previous_y;
+  double previous_norm = 0;
   for (int i = 0; i < refinement_iterations; i++) {
     auto& y = *b;
     const VectorXd residual = total_residual - kkt_matrix_ * y;
+    if (regularized) {
+      // Stop when the solution does not improve.
+      const double norm = residual.norm();
+      if (i > 0 && !(norm < previous_norm)) {
+        y = previous_y;
+        break;
+      }
+      previous_norm = norm;
+      previous_y = y;
+    }
     b_permuted_ = Pt.transpose() * (residual);
     if (use_cholesky_) {
       BlockTriangularOperations::SolveInPlaceCholesky(mat.workspace_,
-- 
2.43.0


From 2c7ba7230a6c1fe3f3ec490e459cb553b2f76563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:21 +0000
Subject: [PATCH 37/39] fix: constraints with fewer columns than variables

Entries of the variables without columns were not initialised, lost, or read
out of range.
---
 conex/dense_lmi_constraint.cc      |  3 +++
 conex/linear_constraint.cc         |  4 ++--
 conex/quadratic_cone_constraint.cc | 27 ++++++++++++++++++---------
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/conex/dense_lmi_constraint.cc b/conex/dense_lmi_constraint.cc
index 3699fbb..8a5ba41 100644
--- a/conex/dense_lmi_constraint.cc
+++ b/conex/dense_lmi_constraint.cc
@@ -96,6 +96,9 @@ void ConstructSchurComplementSystem(DenseLMIConstraint* o, bool initialize,
   int m = o->num_dual_constraints_;
 
   if (initialize) {
+    if (sys->G.rows() != m) {
+      sys->setZero();
+    }
     SCHUR_COMPLEMENT_FUNCTION(=);
   } else {
     SCHUR_COMPLEMENT_FUNCTION(+=);
diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index a3f1605..b178c11 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -187,11 +187,11 @@ void ConstructSchurComplementSystem(LinearConstraint* o, bool initialize,
   WC = W.cwiseProduct(o->constraint_affine_);
 
   if (initialize) {
-    sys->inner_product_of_w_and_c = WC.sum();
-    sys->inner_product_of_c_and_Qc = WC.squaredNorm();
     if (G->rows() != m) {
       sys->setZero();
     }
+    sys->inner_product_of_w_and_c = WC.sum();
+    sys->inner_product_of_c_and_Qc = WC.squaredNorm();
     (*G).topLeftCorner(m, m).noalias() = WA.transpose() * WA;
     sys->AW.topRows(m).noalias() = o->constraint_matrix_.transpose() * W;
     sys->AQc.topRows(m).noalias() = WA.transpose() * WC;
diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index 61d43db..cf2d37e 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -128,9 +128,9 @@ void QuadraticConstraintBase::ComputeNegativeSlack(double inv_sqrt_mu,
                                                    const Ref& y,
                                                    double* minus_s_0,
                                                    Ref* minus_s_1) {
-  *minus_s_0 = A0_.dot(y.col(0));
+  *minus_s_0 = A0_.dot(y.col(0).head(A1_.cols()));
   *minus_s_0 -= C0_ * inv_sqrt_mu;
-  minus_s_1->noalias() = A1_ * y;
+  minus_s_1->noalias() = A1_ * y.topRows(A1_.cols());
   minus_s_1->noalias() -= C1_ * inv_sqrt_mu;
 }
 
@@ -266,17 +266,26 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
     sys->G *= .5;
   }
 
+  // The constraint can act on just the first variables.
+  const int m = o->number_of_variables();
+  if (initialize && sys->G.rows() != m) {
+    sys->setZero();
+  }
+  auto G = sys->G.topLeftCorner(m, m);
+  auto AW = sys->AW.topRows(m);
+  auto AQc = sys->AQc.topRows(m);
+
   if (initialize) {
     SchurComplement(A0, A_gram, *o->workspace_.W0, det_w, A_dot_x, true,
-                    &sys->G);
-    sys->AW.noalias() = A_dot_x + A0 * (*o->workspace_.W0);
-    sys->AQc.noalias() = det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
+                    &G);
+    AW.noalias() = A_dot_x + A0 * (*o->workspace_.W0);
+    AQc.noalias() = det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
     sys->inner_product_of_c_and_Qc = det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
   } else {
     SchurComplement(A0, A_gram, *o->workspace_.W0, det_w, A_dot_x, false,
-                    &sys->G);
-    sys->AW.noalias() += A_dot_x + A0 * (*o->workspace_.W0);
-    sys->AQc.noalias() += det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
+                    &G);
+    AW.noalias() += A_dot_x + A0 * (*o->workspace_.W0);
+    AQc.noalias() += det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
     sys->inner_product_of_c_and_Qc += det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
   }
 
@@ -286,7 +295,7 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
   } else {
     scale = o->workspace_.W1.col(0).dot(C1.col(0)) + C0 * (*o->workspace_.W0);
   }
-  sys->AQc.noalias() += 2 * (A_dot_x + A0 * (*o->workspace_.W0)) * scale;
+  AQc.noalias() += 2 * (A_dot_x + A0 * (*o->workspace_.W0)) * scale;
   sys->inner_product_of_c_and_Qc +=
       2 * (c_dot_x + C0 * (*o->workspace_.W0)) * scale;
   if (initialize) {
-- 
2.43.0


From bc2afdb2644aad463f43eef0c359ccbd22d2ad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:21 +0000
Subject: [PATCH 38/39] fix: reject equalities and quadratic costs with more
 columns than variables

---
 conex/equality_constraint.h | 2 +-
 conex/quadratic_cost.cc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/conex/equality_constraint.h b/conex/equality_constraint.h
index 8190a69..ded9943 100644
--- a/conex/equality_constraint.h
+++ b/conex/equality_constraint.h
@@ -43,7 +43,7 @@ class EqualityConstraints {
                                              bool initialize,
                                              SchurComplementSystem* sys_);
 
-  int number_of_variables() { return 0; }
+  int number_of_variables() { return A_.cols(); }
   WorkspaceEqualityConstraints workspace_;
   WorkspaceEqualityConstraints* workspace() { return &workspace_; }
   friend bool PerformLineSearch(EqualityConstraints*,
diff --git a/conex/quadratic_cost.cc b/conex/quadratic_cost.cc
index bb7c7df..88744a1 100644
--- a/conex/quadratic_cost.cc
+++ b/conex/quadratic_cost.cc
@@ -65,7 +65,7 @@ class QuadraticFunction {
     return failure;
   }
 
-  int number_of_variables() { return 0; }
+  int number_of_variables() { return std::max(A_.rows(), A_.cols()); }
   WorkspaceQuadraticFunction workspace_;
   WorkspaceQuadraticFunction* workspace() { return &workspace_; }
 };
-- 
2.43.0


From 24a410b6f91aa341c67a884c247da0a855f55216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:21 +0000
Subject: [PATCH 39/39] fix: feasible objectives have no entries for
 multipliers, and objectives of other sizes are refused

Solving for the feasible objective of a program with equality constraints was
silently a solve with no objective at all.
---
 conex/cone_program.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 7471b55..1ccecc0 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -619,11 +619,23 @@ DenseMatrix GetFeasibleObjective(Program* prg) {
   double inner_product_of_c_and_w;
   prog.solver->Assemble(&AW, &AQc, &inner_product_of_c_and_w);
 
-  return .5 * AW;
+  // Without the entries of the multipliers.
+  return .5 * AW.head(prog.GetNumberOfVariables());
 }
 
 bool Solve(const DenseMatrix& b, Program& prog,
            const SolverConfiguration& config, double* primal_variable) {
+  if (b.rows() != prog.GetNumberOfVariables() || b.cols() != 1) {
+    std::cerr << "Cost vector dimension does not equal number of variables.";
+    prog.status_.solved = 0;
+    prog.status_.primal_infeasible = 0;
+    prog.status_.dual_infeasible = 0;
+    prog.status_.num_iterations = 0;
+    if (prog.stats) {
+      prog.stats->num_iter = 0;
+    }
+    return prog.status_.solved;
+  }
   prog.ClearLinearCosts();
   prog.AddLinearCost(-b);
   return Solve(prog, config, primal_variable);
-- 
2.43.0

