// C25: Krylov eigenvalue estimates stay inside the spectrum and converge.
#include "conex/approximate_eigenvalues.h"

#include "gen.h"

using namespace conex;
using gen::MatrixXd;
using gen::VectorXd;
using pbt::Case;

namespace {

// Reference: Krylov space of (S, u) by full orthogonalisation.  Returns the
// off-diagonal norms beta and the Ritz values of every order.
struct Krylov {
  std::vector<double> beta;          // beta[j] = norm before column j.
  std::vector<VectorXd> ritz;        // ritz[k-1] = values of order k.
};
Krylov Reference(const MatrixXd& S, VectorXd u, int order) {
  Krylov k;
  int n = S.rows();
  MatrixXd Q(n, order);
  for (int j = 0; j < order; j++) {
    for (int rep = 0; rep < 3; rep++)
      for (int i = 0; i < j; i++) u -= Q.col(i).dot(u) * Q.col(i);
    double nu = u.norm();
    k.beta.push_back(nu);
    if (nu < 1e-12 || (j > 0 && nu < 1e-6)) break;
    Q.col(j) = u / nu;
    MatrixXd P = Q.leftCols(j + 1).transpose() * S * Q.leftCols(j + 1);
    k.ritz.push_back(gen::Eigenvalues(P));
    u = S * Q.col(j);
  }
  return k;
}

VectorXd Start(Case& c, const MatrixXd& S, int n, std::string* kind) {
  int k = c.integer(0, 3);
  if (k == 0) {
    *kind = "generic start";
    VectorXd r = gen::Vector(c, n);
    if (r.norm() < .05) c.discard();
    return r;
  }
  if (k == 1) {
    *kind = "unit start";
    return VectorXd::Unit(n, c.integer(0, n - 1));
  }
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(S);
  int m = k == 2 ? 1 : c.integer(1, n);
  *kind = "start in an invariant subspace";
  VectorXd r = VectorXd::Zero(n);
  for (int i : c.subset(n, m)) r += (.3 + c.real(0, 1)) * es.eigenvectors().col(i);
  return r;
}

MatrixXd Spectrum(Case& c, int n, std::string* kind) {
  int k = c.integer(0, 4);
  if (k == 0) {
    *kind = "generic matrix";
    return gen::Symmetric(c, n);
  }
  if (k == 1) {
    *kind = "diagonal";
    MatrixXd d = MatrixXd::Zero(n, n);
    for (int i = 0; i < n; i++) d(i, i) = c.smallint(3);
    return d;
  }
  if (k == 2) {
    *kind = "multiple of the identity";
    return MatrixXd::Identity(n, n) * (c.smallint(4));
  }
  if (k == 3) {
    *kind = "repeated eigenvalues";
    MatrixXd q = gen::Orthogonal(c, n);
    VectorXd d(n);
    for (int i = 0; i < n; i++) d(i) = c.smallint(2);
    MatrixXd m = q * d.asDiagonal() * q.transpose();
    return (m + m.transpose()) * .5;
  }
  *kind = "given spectrum";
  return gen::SymmetricWithSpectrum(c, n, -5, 5);
}

void Symmetric(Case& c) {
  int n = c.integer(1, 7);
  std::string k1, k2;
  MatrixXd A = Spectrum(c, n, &k1);
  VectorXd r = Start(c, A, n, &k2) * c.pick<double>({1, 1, 1e-3, 1e3});
  int it = c.integer(1, n);
  c.label(k1);
  c.label(k2);
  c.log() << "A=" << gen::Str(A) << " r=" << gen::Str(r) << " it=" << it << "\n";
  VectorXd ev = gen::Eigenvalues(A);
  double sc = std::max(1e-3, ev.cwiseAbs().maxCoeff());
  if (n > 1 && it > 1) c.nontrivial();
  Krylov ref = Reference(A, r, n);
  double prev_lo = 1e300, prev_hi = -1e300;
  for (int i = 1; i <= it; i++) {
    VectorXd est = ApproximateEigenvalues(A, r, i);
    c.require(est.size() >= 1 && est.allFinite(), "estimates are numbers");
    c.at_least(est.minCoeff(), ev.minCoeff() - 1e-8 * sc, "above minimum");
    c.at_most(est.maxCoeff(), ev.maxCoeff() + 1e-8 * sc, "below maximum");
    c.at_most(est.minCoeff(), prev_lo + 1e-7 * sc, "minimum improves");
    c.at_least(est.maxCoeff(), prev_hi - 1e-7 * sc, "maximum improves");
    prev_lo = est.minCoeff();
    prev_hi = est.maxCoeff();
    // While the recurrence is far from breaking down the values are exact.
    double b = 1e300;
    for (int j = 1; j < i && j < (int)ref.beta.size(); j++)
      b = std::min(b, ref.beta[j]);
    if ((int)ref.ritz.size() >= i && (i == 1 || b > 3e-3 * sc)) {
      c.label("compared with the exact Krylov space");
      VectorXd want = ref.ritz[i - 1];
      c.require(est.size() == want.size(), "number of estimates");
      VectorXd e = est;
      std::sort(e.data(), e.data() + e.size());
      c.small(gen::Diff(e, want), 1e-6 * sc, "Ritz values");
    }
  }
}

void Weighted(Case& c) {
  int n = c.integer(1, 7);
  std::string k1, k2;
  MatrixXd S = Spectrum(c, n, &k1);
  MatrixXd W = gen::PositiveDefinite(c, n, .2, 4);
  if (c.chance(1, 4)) W.setIdentity();
  MatrixXd Wh = gen::SymFunction(W, gen::SqrtAbs);
  MatrixXd H = Wh * S * Wh;
  H = (H + H.transpose()) * .5;
  VectorXd r = Wh.inverse() * Start(c, H, n, &k2);
  int it = c.integer(1, n + 1);
  bool compressed = c.integer(0, 3) > 0;
  c.label(k1);
  c.label(k2);
  c.label(compressed ? "compressed" : "monomial");
  c.log() << "S=" << gen::Str(S) << " W=" << gen::Str(W) << " r=" << gen::Str(r)
          << " it=" << it << " compressed=" << compressed << "\n";
  VectorXd ev = gen::Eigenvalues(H);
  double sc = std::max(1.0, ev.cwiseAbs().maxCoeff());
  if (n > 1 && it > 1) c.nontrivial();
  Krylov ref = Reference(H, Wh * r, n);
  double prev_lo = 1e300, prev_hi = -1e300;
  for (int i = 1; i <= it; i++) {
    double b = 1e300;
    for (int j = 1; j < i; j++)
      b = std::min(b, j < (int)ref.beta.size() ? ref.beta[j] : 0.0);
    bool healthy = (i == 1 || b > .05 * sc) && (int)ref.ritz.size() >= i;
    // The uncompressed variant works in the monomial basis and is documented
    // by its tests only for short, non-degenerate recurrences.
    if (!compressed && (!healthy || i > 4)) break;
    VectorXd est = ApproximateEigenvalues(W * S, W, r, i, compressed);
    c.require(est.size() >= 1 && est.allFinite(), "estimates are numbers");
    const double tol = compressed ? 1e-5 * sc : 1e-4 * sc;
    c.at_least(est.minCoeff(), ev.minCoeff() - tol, "above minimum");
    c.at_most(est.maxCoeff(), ev.maxCoeff() + tol, "below maximum");
    if (compressed) {
      c.at_most(est.minCoeff(), prev_lo + tol, "minimum improves");
      c.at_least(est.maxCoeff(), prev_hi - tol, "maximum improves");
      prev_lo = est.minCoeff();
      prev_hi = est.maxCoeff();
    }
    if (healthy) {
      c.label("compared with the exact Krylov space");
      VectorXd want = ref.ritz[i - 1];
      c.require(n == 1 || est.size() == want.size(), "number of estimates");
      VectorXd e = est;
      std::sort(e.data(), e.data() + e.size());
      if (n > 1)
        c.small(gen::Diff(e, want), compressed ? 1e-5 * sc : 1e-3 * sc,
                "Ritz values");
      else
        c.small(e(0) - ev(0), 1e-9 * sc, "order one");
    } else if (compressed && !ref.ritz.empty()) {
      // Early end: the extreme values reachable from r are still found.
      c.label("recurrence ends early");
      VectorXd last = ref.ritz.back();
      double small = 1e300;
      for (size_t j = 1; j < ref.beta.size() && (int)j < i; j++)
        if (j + 1 < ref.beta.size() || ref.beta[j] > 1e-6) small = std::min(small, ref.beta[j]);
      if (small > .05 * sc && i >= (int)ref.ritz.size()) {
        c.small(est.minCoeff() - last.minCoeff(), 1e-4 * sc,
                "reachable minimum");
        c.small(est.maxCoeff() - last.maxCoeff(), 1e-4 * sc,
                "reachable maximum");
      }
    }
  }
}

void Shape(Case& c) {
  int r = c.integer(1, 5), k = c.integer(1, 5);
  if (r == k) c.discard();
  c.nontrivial();
  c.log() << r << "x" << k << "\n";
  MatrixXd A = gen::Matrix(c, r, k);
  bool threw = false;
  try {
    ApproximateEigenvalues(A, MatrixXd::Identity(r, r), VectorXd::Ones(r), 2,
                           c.boolean());
  } catch (const std::exception&) {
    threw = true;
  }
  c.require(threw, "a non-square argument is rejected");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C25";
  p.rule =
      "Symmetric matrices of order 1..7 (generic, diagonal, repeated and "
      "constant spectra), positive definite weights, start vectors that are "
      "generic, unit or inside invariant subspaces, all iteration counts; "
      "compared with exact extremes and with a fully orthogonalised Krylov "
      "space. Non-trivial: order > 1 and more than one iteration.";
  p.tests = {
      {"symmetric", 60000, 1000000, Symmetric},
      {"weighted", 60000, 1000000, Weighted},
      {"shape", 500, 2000, Shape},
  };
  return pbt::Main(argc, argv, p);
}
