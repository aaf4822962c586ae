// C18: block triangular operations equal their dense counterparts.
#include "conex/block_triangular_operations.h"

#include "cliques.h"
#include "conex/supernodal_solver.h"

using namespace conex;
using gen::Cliques;
using gen::MatrixXd;
using gen::VectorXd;
using pbt::Case;
using B = BlockTriangularOperations;
using TO = TriangularMatrixOperations;

namespace {

// Symmetric matrix with the pattern of the sets: positive definite on the
// variables with sign +, negative definite on the others.
MatrixXd QuasiDefinite(Case& c, const Cliques& sets, int n,
                       const std::vector<int>& sign, double shift) {
  MatrixXd A = MatrixXd::Zero(n, n);
  for (auto& s : sets) {
    int k = s.size();
    MatrixXd P = gen::Matrix(c, k, k), N = gen::Matrix(c, k, k), X = gen::Matrix(c, k, k);
    P = P * P.transpose();
    N = N * N.transpose();
    for (int i = 0; i < k; i++)
      for (int j = 0; j < k; j++) {
        int a = s[i], b = s[j];
        if (sign[a] > 0 && sign[b] > 0)
          A(a, b) += P(i, j);
        else if (sign[a] < 0 && sign[b] < 0)
          A(a, b) -= N(i, j);
        else if (sign[a] > 0) {
          A(a, b) += X(i, j);
          A(b, a) += X(i, j);
        }
      }
  }
  for (int i = 0; i < n; i++) A(i, i) += sign[i] * shift;
  return A;
}

void Fill(SparseTriangularMatrix* mat, const MatrixData& d, const MatrixXd& M,
          double upper) {
  for (size_t e = 0; e < d.cliques.size(); e++) {
    int s = d.supernode_size[e];
    auto& q = d.cliques[e];
    for (int i = 0; i < s; i++) {
      for (int j = 0; j < s; j++)
        mat->supernodes.at(e)(i, j) = i >= j ? M(q[i], q[j]) : upper;
      for (size_t j = s; j < q.size(); j++)
        mat->separator.at(e)(i, j - s) = M(q[i], q[j]);
    }
  }
}

struct Setup {
  int n;
  Cliques sets;
  MatrixData d;
  bool has_empty = false;
  std::string kind;
};

Setup Make(Case& c) {
  Setup s;
  s.sets = gen::CliqueSet(c, 9, 7, &s.n, &s.kind);
  int k = s.sets.size();
  if (c.chance(1, 3)) {
    std::vector<int> valid;
    for (int i = 0; i < k; i++) valid.push_back(c.boolean());
    s.d = GetData(s.sets, valid, c.integer(0, k - 1));
  } else {
    s.d = GetData(s.sets, c.integer(0, k - 1));
  }
  for (int x : s.d.supernode_size)
    if (x == 0) s.has_empty = true;
  c.label(s.kind);
  if (s.has_empty) c.label("with empty supernodes");
  if (k >= 3 && s.n >= 3) c.nontrivial();
  c.log() << "sets=" << gen::Str(s.sets) << " order=" << gen::Str(s.d.clique_order)
          << "\n";
  return s;
}

MatrixXd Permuted(const MatrixXd& A, const MatrixData& d) {
  int n = A.rows();
  MatrixXd M(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      M(i, j) = A(d.permutation_inverse[i], d.permutation_inverse[j]);
  return M;
}

MatrixXd Lower(const MatrixXd& m) {
  return m.triangularView<Eigen::Lower>();
}

void Cholesky(Case& c) {
  Setup s = Make(c);
  std::vector<int> plus(s.n, 1);
  double nan = std::numeric_limits<double>::quiet_NaN();
  SparseTriangularMatrix mat(s.d);
  int rounds = c.integer(1, 2);
  for (int r = 0; r < rounds; r++) {
    MatrixXd M = Permuted(QuasiDefinite(c, s.sets, s.n, plus, c.real(.2, 2)), s.d);
    c.log() << "M=" << gen::Str(M) << "\n";
    double upper = c.pick<double>({0, nan, 3});
    Fill(&mat, s.d, M, upper);
    c.small(gen::Diff(TO::ToDense(mat), Lower(M)), 0, "conversion to dense");
    MatrixXd L = M.llt().matrixL();
    VectorXd b = gen::Vector(c, s.n);
    double sc = 1 + gen::MaxAbs(M), tol = 1e-11 * sc;
    MatrixXd Linv = L.inverse();
    double si = 1 + gen::MaxAbs(Linv) * gen::MaxAbs(Linv);

    // A copy keeps its own data.
    SparseTriangularMatrix copy(mat);
    c.require(B::BlockCholeskyInPlace(&copy.workspace_), "success");
    c.small(gen::Diff(TO::ToDense(copy), L), tol, "block Cholesky factor");
    c.small(gen::Diff(TO::ToDense(mat), Lower(M)), 0, "the original of a copy");
    if (c.boolean()) {
      c.require(B::BlockCholeskyInPlace(&mat.workspace_), "success");
      c.small(gen::Diff(TO::ToDense(mat), L), tol, "block Cholesky factor");
    } else {
      c.label("column-wise factorisation");
      TO::CholeskyInPlace(&mat);
      c.small(gen::Diff(TO::ToDense(mat), L), tol, "column Cholesky factor");
    }
    VectorXd x = b;
    B::ApplyBlockInverseInPlace(mat.workspace_, &x);
    c.small(gen::Diff(x, Linv * b), tol * si, "forward substitution");
    c.small(gen::Diff(TO::ApplyInverse(&mat, b), Linv * b), tol * si,
            "column forward substitution");
    x = b;
    B::ApplyBlockInverseOfTransposeInPlace(mat.workspace_, &x);
    c.small(gen::Diff(x, Linv.transpose() * b), tol * si, "backward substitution");
    c.small(gen::Diff(TO::ApplyInverseOfTranspose(&mat, b), Linv.transpose() * b),
            tol * si, "column backward substitution");
    x = b;
    B::SolveInPlaceCholesky(mat.workspace_, &x);
    c.small(gen::Diff(M * x, b), tol * si, "solution");
    c.small(gen::Diff(TO::ToDense(mat), L), tol, "factor after solving");
  }
}

void NotPositiveDefinite(Case& c) {
  Setup s = Make(c);
  std::vector<int> sign(s.n, 1);
  int bad = c.integer(1, s.n);
  for (int i : c.subset(s.n, bad)) sign[i] = -1;
  MatrixXd M = Permuted(QuasiDefinite(c, s.sets, s.n, sign, c.real(.2, 2)), s.d);
  c.log() << "M=" << gen::Str(M) << "\n";
  SparseTriangularMatrix mat(s.d);
  Fill(&mat, s.d, M, 0);
  c.require(!B::BlockCholeskyInPlace(&mat.workspace_),
            "Cholesky of an indefinite matrix fails");
}

void Ldlt(Case& c) {
  Setup s = Make(c);
  double nan = std::numeric_limits<double>::quiet_NaN();
  SparseTriangularMatrix mat(s.d);
  std::vector<Eigen::RLDLT<Eigen::Ref<MatrixXd>>> f;
  int rounds = c.integer(1, 2);
  for (int r = 0; r < rounds; r++) {
    std::vector<int> sign(s.n);
    for (auto& x : sign) x = c.boolean() ? -1 : 1;
    MatrixXd M = Permuted(QuasiDefinite(c, s.sets, s.n, sign, c.real(.2, 2)), s.d);
    c.log() << "M=" << gen::Str(M) << "\n";
    Fill(&mat, s.d, M, c.pick<double>({0, nan, 3}));
    VectorXd b = gen::Vector(c, s.n);
    double sc = 1 + gen::MaxAbs(M);
    MatrixXd Minv = M.inverse();
    double tol = 1e-11 * sc * sc * (1 + gen::MaxAbs(Minv)) * (1 + gen::MaxAbs(Minv));
    c.require(B::BlockLDLTInPlace(&mat.workspace_, &f), "no regularisation");
    VectorXd x = b;
    B::SolveInPlaceLDLT(mat.workspace_, f, &x);
    c.small(gen::Diff(M * x, b), tol, "solution");
    // M = F D F' in block form.
    MatrixXd Ft(s.n, s.n), FD(s.n, s.n);
    for (int i = 0; i < s.n; i++) {
      VectorXd e = VectorXd::Unit(s.n, i);
      B::ApplyBlockInverseOfMTranspose(mat.workspace_, f, &e);
      Ft.col(i) = e;
      e = VectorXd::Unit(s.n, i);
      B::ApplyBlockInverseOfMD(mat.workspace_, f, &e);
      FD.col(i) = e;
    }
    VectorXd D(s.n);
    int k = 0;
    for (auto& fi : f) {
      VectorXd di = fi.vectorD();
      for (int i = 0; i < di.size(); i++) D(k++) = di(i);
    }
    c.require(k == s.n, "number of pivots");
    c.small(gen::Diff(D.asDiagonal() * FD, Ft.transpose()),
            tol * (1 + gen::MaxAbs(D)), "factors are transposes of each other");
    c.small(gen::Diff(Ft * FD, Minv), tol, "inverse from the factors");
    // Inertia.
    int neg = 0, dneg = 0;
    for (int v : sign) neg += v < 0;
    for (int i = 0; i < s.n; i++) dneg += D(i) < 0;
    c.require(neg == dneg, "inertia");
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C18";
  p.rule =
      "Elimination structures of random variable-set collections (as C17), "
      "filled with positive definite or quasi-definite matrices of that "
      "pattern, with garbage in unread triangles and refactorisation of the "
      "same storage; non-trivial: three sets and three variables or more";
  p.tests = {{"cholesky", 60000, 1200000, Cholesky},
             {"not_definite", 30000, 600000, NotPositiveDefinite},
             {"ldlt", 60000, 1200000, Ldlt}};
  p.assumptions = {"matrices have eigenvalues at least 0.2 away from zero"};
  return pbt::Main(argc, argv, p);
}
