// C19: the pivoted LDL' factorisation is backward stable and regularises.
#include "conex/RLDLT.h"

#include "gen.h"

using gen::MatrixXd;
using gen::VectorXd;
using pbt::Case;

namespace {
const double kReg = 1e-9;

MatrixXd Generate(Case& c, int n, std::string* kind) {
  MatrixXd A;
  switch (c.integer(0, 8)) {
    case 0:
      *kind = "generic symmetric";
      A = gen::Symmetric(c, n);
      break;
    case 1:
      *kind = "positive definite";
      A = gen::PositiveDefinite(c, n, .1, 5);
      break;
    case 2:
      *kind = "negative definite";
      A = -gen::PositiveDefinite(c, n, .1, 5);
      break;
    case 3: {
      *kind = "quasi-definite";
      int k = c.integer(0, n);
      MatrixXd B = gen::Matrix(c, n, n);
      A = MatrixXd::Zero(n, n);
      auto p = c.permutation(n);
      MatrixXd Q = MatrixXd::Zero(n, n);
      if (k) Q.topLeftCorner(k, k) = gen::PositiveDefinite(c, k, .3, 3);
      if (k < n)
        Q.bottomRightCorner(n - k, n - k) = -gen::PositiveDefinite(c, n - k, .3, 3);
      Q.bottomLeftCorner(n - k, k) = B.topLeftCorner(n - k, k);
      Q.topRightCorner(k, n - k) = B.topLeftCorner(n - k, k).transpose();
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) A(p[i], p[j]) = Q(i, j);
      break;
    }
    case 4: {
      *kind = "integer entries, often singular";
      A = MatrixXd::Zero(n, n);
      for (int i = 0; i < n; i++)
        for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = c.smallint(2);
      break;
    }
    case 5: {
      *kind = "low rank";
      int r = c.integer(0, std::max(0, n - 1));
      MatrixXd B = MatrixXd::Zero(n, r);
      for (int i = 0; i < n; i++)
        for (int j = 0; j < r; j++) B(i, j) = c.smallint(2);
      A = B * B.transpose();
      if (c.boolean()) A = -A;
      break;
    }
    case 6: {
      *kind = "saddle point with zero block";
      int k = c.integer(0, n);
      A = MatrixXd::Zero(n, n);
      if (k) A.topLeftCorner(k, k) = gen::PositiveDefinite(c, k, .3, 3);
      for (int i = k; i < n; i++)
        for (int j = 0; j < k; j++) A(i, j) = A(j, i) = c.unit();
      break;
    }
    case 7: {
      *kind = "tiny diagonal pivots";
      A = MatrixXd::Zero(n, n);
      for (int i = 0; i < n; i++)
        A(i, i) = c.pick<double>({1, -1, 2, 0, 1e-10, -1e-10, 1e-13, -1e-13, 5e-9,
                                  -5e-9, -0.0});
      if (n > 1 && c.boolean()) A(1, 0) = A(0, 1) = c.pick<double>({0, 1e-10, .5});
      break;
    }
    default:
      *kind = "badly scaled";
      A = gen::PositiveDefinite(c, n, .3, 3);
      for (int i = 0; i < n; i++) {
        double s = std::pow(10, c.smallint(2));
        A.row(i) *= s;
        A.col(i) *= s;
      }
  }
  return A;
}

template <typename F>
void CheckFactors(Case& c, const F& f, const MatrixXd& A, const MatrixXd& rhs,
                  const std::string& kind) {
  const int n = A.rows();
  MatrixXd L = f.matrixL();
  VectorXd D = f.vectorD();
  MatrixXd P = MatrixXd::Identity(n, n);
  P = f.transpositionsP() * P;
  c.require(f.info() == Eigen::Success, "success is reported");
  c.require(L.allFinite() && D.allFinite(), "factors are finite");
  for (int i = 0; i < n; i++) {
    c.require(L(i, i) == 1, "unit diagonal");
    for (int j = i + 1; j < n; j++) c.require(L(i, j) == 0, "lower triangular");
    c.at_least(std::fabs(D(i)), kReg * (1 - 1e-12), "pivots are bounded away from zero");
  }
  // Backward error: |P'LDL'P - A| <= c n eps (|L||D||L|' + |A|) + 2e-9 on
  // the diagonal where a pivot was regularised.
  MatrixXd PA = P * A * P.transpose();
  MatrixXd LDL = L * D.asDiagonal() * L.transpose();
  MatrixXd mag = L.cwiseAbs() * D.cwiseAbs().asDiagonal() * L.cwiseAbs().transpose();
  bool regularised = false;
  for (int i = 0; i < n; i++)
    for (int j = 0; j <= i; j++) {
      double bound = 1e-15 * (n + 4) * 4 * (mag(i, j) + std::fabs(PA(i, j)));
      if (i == j && std::fabs(D(i)) <= kReg * (1 + 1e-12)) {
        bound += 2 * kReg;
        regularised = true;
        // The regularised pivot has the sign of the pivot it replaces.
        double original = D(i) + PA(i, i) - LDL(i, i);
        if (std::fabs(original) > 1e-15 * (n + 4) * 4 * (mag(i, i) + 1e-9))
          c.require((original < 0) == (D(i) < 0), "sign of a regularised pivot");
      }
      c.small(LDL(i, j) - PA(i, j), bound, "factors against the matrix");
    }
  c.label(kind);
  if (regularised) c.label("regularised");
  // The transpositions are a permutation.
  c.small(gen::Diff(P * P.transpose(), MatrixXd::Identity(n, n)), 0, "permutation");
  c.small(gen::Diff(f.reconstructedMatrix(), P.transpose() * LDL * P),
          1e-13 * (1 + gen::MaxAbs(mag)), "reconstructedMatrix");
  // Classification is consistent with the pivots.
  if (n > 0) {
    c.require(f.isPositive() == (D.minCoeff() > 0), "isPositive");
    c.require(f.isNegative() == (D.maxCoeff() < 0), "isNegative");
  }
  // ... and, for matrices well away from singular ones, with the inertia.
  VectorXd ev = n ? gen::Eigenvalues(A) : VectorXd();
  double amin = n ? ev.cwiseAbs().minCoeff() : 1, amax = n ? ev.cwiseAbs().maxCoeff() : 1;
  double growth = gen::MaxAbs(mag);
  if (n && amin > 1e-6 && !regularised && growth < 1e6 * amin) {
    c.label("inertia compared");
    int pos = 0, pd = 0;
    for (int i = 0; i < n; i++) pos += ev(i) > 0, pd += D(i) > 0;
    c.require(pos == pd, "inertia");
  }
  // Solve: (P'LDL'P) x = b.
  MatrixXd x = f.solve(rhs);
  c.require(x.allFinite(), "solution is finite");
  MatrixXd back = P.transpose() * (L * (D.asDiagonal() * (L.transpose() * (P * x)).eval()).eval());
  MatrixXd bound = P.transpose() * mag * P * x.cwiseAbs();
  for (int i = 0; i < n; i++)
    for (int j = 0; j < rhs.cols(); j++)
      c.small(back(i, j) - rhs(i, j),
              1e-14 * (n + 4) * (bound(i, j) + std::fabs(rhs(i, j))) + 1e-300,
              "residual of the solve");
  MatrixXd y = rhs;
  c.require(f.solveInPlace(y), "solveInPlace succeeds");
  c.small(gen::Diff(x, y), 0, "solve in place");
  // Well-conditioned systems.
  if (n && amin > 1e-3 && amax < 1e3 && !regularised && growth < 1e3) {
    c.label("solution compared");
    MatrixXd ref = A.fullPivLu().solve(rhs);
    c.small(gen::Diff(x, ref), 1e-9 * (1 + gen::MaxAbs(ref)) * growth / amin,
            "solution of a well-conditioned system");
  }
}

void Factor(Case& c) {
  int n = c.integer(0, 8);
  std::string kind;
  MatrixXd A = Generate(c, n, &kind);
  A *= c.pick<double>({1, 1, 1, 1e-3, 1e4});
  A = A.selfadjointView<Eigen::Lower>();
  MatrixXd rhs = gen::Matrix(c, n, c.integer(1, 3));
  c.log() << kind << " A=" << gen::Str(A) << " rhs=" << gen::Str(rhs) << "\n";
  if (n >= 2 && !A.isDiagonal(0)) c.nontrivial();
  // Only the stored triangle is read.
  MatrixXd stored = A;
  int garbage = c.integer(0, 2);
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) {
      if (garbage == 1) stored(i, j) = std::numeric_limits<double>::quiet_NaN();
      if (garbage == 2) stored(i, j) = 7;
    }
  int how = c.integer(0, 3);
  if (how == 0) {
    Eigen::RLDLT<MatrixXd> f(stored);
    CheckFactors(c, f, A, rhs, kind);
  } else if (how == 1) {
    c.label("in place");
    MatrixXd copy = stored;
    Eigen::RLDLT<Eigen::Ref<MatrixXd>> f(copy);
    const double* p = &*copy.data();
    c.require(n == 0 || f.matrixRLDLT().data() == p, "factors are in place");
    MatrixXd L = f.matrixL();
    Eigen::RLDLT<MatrixXd> g(stored);
    MatrixXd Lg = g.matrixL();
    VectorXd d1 = f.vectorD(), d2 = g.vectorD();
    c.small(gen::Diff(L, Lg), 0, "in-place factor");
    c.small(gen::Diff(d1, d2), 0, "in-place pivots");
    MatrixXd x = f.solve(rhs), y = g.solve(rhs);
    c.small(gen::Diff(x, y), 0, "in-place solve");
    CheckFactors(c, g, A, rhs, kind);
  } else if (how == 2) {
    c.label("reused object");
    Eigen::RLDLT<MatrixXd> f;
    std::string k2;
    int n2 = c.integer(1, 8);
    f.compute(Generate(c, n2, &k2));
    f.compute(stored);
    CheckFactors(c, f, A, rhs, kind);
  } else {
    c.label("preallocated");
    Eigen::RLDLT<MatrixXd> f(n);
    f.compute(stored);
    CheckFactors(c, f, A, rhs, kind);
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C19";
  p.rule =
      "Symmetric matrices of order 0 to 8: generic, definite, quasi-definite, "
      "integer and low-rank singular, saddle-point, with tiny pivots and badly "
      "scaled, fresh, in-place and reused factorisations, with garbage in the "
      "triangle that is not stored; non-trivial: order two or more and not "
      "diagonal";
  p.tests = {{"factor", 200000, 4000000, Factor}};
  p.assumptions = {
      "backward error is measured against |L||D||L'|, the bound that holds "
      "for any diagonal pivoting"};
  return pbt::Main(argc, argv, p);
}
