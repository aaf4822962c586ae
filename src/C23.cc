// C23: hypercomplex matrix algebra agrees with an independent model.
#include "conex/jordan_matrix_algebra.h"

#include "hc.h"

using namespace conex;
using gen::MatrixXd;
using gen::VectorXd;
using hc::HC;
using pbt::Case;

namespace {

HyperComplexMatrix Lib(const HC& x) {
  HyperComplexMatrix y(x.d);
  for (int i = 0; i < x.d; i++) y.at(i) = x.m[i];
  return y;
}
HC Model(const HyperComplexMatrix& x) {
  HC y;
  y.d = static_cast<int>(x.size());
  for (auto& m : x) y.m.push_back(m);
  return y;
}

template <int d>
void Arithmetic(Case& c) {
  using T = MatrixAlgebra<d>;
  int r = c.integer(1, 4), k = c.integer(1, 4), q = c.integer(1, 4);
  bool basis = c.chance(1, 4);
  HC a, b, a2;
  if (basis) {
    // Products of basis elements, so that every table entry is hit exactly.
    a = HC(d, 1, 1);
    b = HC(d, 1, 1);
    a2 = HC(d, 1, 1);
    a.m[c.integer(0, d - 1)](0, 0) = c.smallint(3);
    b.m[c.integer(0, d - 1)](0, 0) = c.smallint(3);
    a2.m[c.integer(0, d - 1)](0, 0) = 1;
  } else {
    a = hc::Matrix(c, d, r, k);
    a2 = hc::Matrix(c, d, r, k);
    b = hc::Matrix(c, d, k, q);
  }
  double s = 3 * c.unit();
  c.log() << "d=" << d << " a=" << hc::Str(a) << " b=" << hc::Str(b)
          << " s=" << s << "\n";
  if (hc::Norm(a) > 1e-3 && hc::Norm(b) > 1e-3) c.nontrivial();
  c.label(basis ? "basis product" : "matrix product");
  const double eps = 1e-12;
  c.small(hc::Diff(Model(T::Multiply(Lib(a), Lib(b))), a * b), eps, "product");
  c.small(hc::Diff(Model(T::Add(Lib(a), Lib(a2))), a + a2), eps, "sum");
  c.small(hc::Diff(Model(T::ScalarMultiply(Lib(a), s)), s * a), eps, "scaling");
  c.small(hc::Diff(Model(T::ConjugateTranspose(Lib(a))), hc::Conj(a)), eps,
          "conjugate transpose");
  c.small(T::TraceInnerProduct(Lib(a), Lib(a2)) - hc::Inner(a, a2), eps,
          "trace inner product");
  // <a, a2> is the real part of the trace of a* a2.
  c.small(Model(T::Multiply(T::ConjugateTranspose(Lib(a)), Lib(a2)))
                  .m[0]
                  .trace() -
              hc::Inner(a, a2),
          eps, "trace of a* a2");
  // Conjugation reverses products.
  c.small(hc::Diff(Model(T::ConjugateTranspose(T::Multiply(Lib(a), Lib(b)))),
                   hc::Conj(b) * hc::Conj(a)),
          eps, "(ab)* = b* a*");
  HC z = Model(T::Zero(r, k));
  c.require(z.d == d && z.rows() == r && z.cols() == k && hc::Norm(z) == 0,
            "zero matrix");
  int n = c.integer(1, 4);
  c.small(hc::Diff(Model(T::Identity(n)), hc::Identity(d, n)), 0, "identity");
  HC rnd = Model(T::Random(r, k));
  c.require(rnd.d == d && rnd.rows() == r && rnd.cols() == k,
            "shape of a random matrix");
  c.require(T::IsEqual(Lib(a), Lib(a)), "a equals itself");
  HC a3 = a;
  int i = c.integer(0, d - 1);
  a3.m[i](c.integer(0, a.rows() - 1), c.integer(0, a.cols() - 1)) += 1e-3;
  c.require(!T::IsEqual(Lib(a), Lib(a3)), "a differs from a perturbed a");
}

template <int d>
void JordanOps(Case& c) {
  using T = MatrixAlgebra<d>;
  int n = c.integer(1, d == 8 ? 3 : 4);
  HC x = hc::Hermitian(c, d, n), y = hc::Hermitian(c, d, n);
  c.log() << "d=" << d << " x=" << hc::Str(x) << " y=" << hc::Str(y) << "\n";
  if (n > 1 && hc::Norm(x) > 1e-2 && hc::Norm(y) > 1e-2) c.nontrivial();
  const double eps = 1e-11;
  c.small(hc::Diff(Model(T::JordanMultiply(Lib(x), Lib(y))), hc::Jordan(x, y)),
          eps, "Jordan product");
  c.small(
      hc::Diff(Model(T::QuadraticRepresentation(Lib(x), Lib(y))), hc::Quad(x, y)),
      eps, "quadratic representation");
  if (d <= 4) {
    // In an associative algebra Q(x) y = x y x.
    MatrixXd X = hc::Embed(x), Y = hc::Embed(y);
    c.small(gen::Diff(hc::Embed(Model(T::QuadraticRepresentation(Lib(x), Lib(y)))),
                      X * Y * X),
            eps, "x y x through the real embedding");
    c.small(gen::Diff(hc::Embed(Model(T::Multiply(Lib(x), Lib(y)))), X * Y), eps,
            "product through the real embedding");
  }
  c.require(T::IsHermitian(Lib(x)), "hermitian matrix accepted");
  HC g = hc::Matrix(c, d, n, n);
  HC skew = g - hc::Conj(g);
  if (hc::Norm(skew) > 1e-6)
    c.require(!T::IsHermitian(Lib(x + skew)), "non-hermitian matrix rejected");
  c.small(hc::Diff(Model(T::MakeHermitian(Lib(g))), .5 * (g + hc::Conj(g))), eps,
          "hermitian part");
  // Arbitrary (non-hermitian) arguments as well.
  HC h = hc::Matrix(c, d, n, n);
  c.small(hc::Diff(Model(T::JordanMultiply(Lib(g), Lib(h))), hc::Jordan(g, h)),
          eps, "Jordan product of general matrices");
}

template <int d>
void Spectrum(Case& c) {
  using T = MatrixAlgebra<d>;
  int n = c.integer(1, d == 8 ? 3 : 4);
  HC x = hc::Hermitian(c, d, n);
  VectorXd ev = hc::Eigenvalues(x);
  double gap = n > 1 ? hc::MinGap(ev) : 1;
  c.log() << "d=" << d << " x=" << hc::Str(x) << " eigenvalues "
          << gen::Str(MatrixXd(ev.transpose())) << "\n";
  if (gap < .25) c.discard();
  if (n > 1) c.nontrivial();
  VectorXd got = T::Eigenvalues(Lib(x));
  c.require(got.size() == n, "number of eigenvalues");
  std::sort(got.data(), got.data() + n);
  c.small(gen::Diff(got, ev), 1e-7, "eigenvalues");

  // Krylov estimates: inside the spectrum, and exact at full order.
  double lo = ev(0), hi = ev(n - 1);
  if (d <= 4) {
    HC r = hc::Matrix(c, d, n, 1);
    if (hc::Norm(r) < .1) c.discard();
    for (int it = 1; it <= n; it++) {
      VectorXd est = T::ApproximateEigenvalues(Lib(x), Lib(r), it);
      c.require(est.allFinite(), "Krylov estimates are numbers");
      c.at_least(est.minCoeff(), lo - 1e-7, "Krylov estimate above minimum");
      c.at_most(est.maxCoeff(), hi + 1e-7, "Krylov estimate below maximum");
    }
    // Weighted estimates of W S, with eigenvalues of W^(1/2) S W^(1/2).
    HC g = hc::Matrix(c, d, n, n);
    HC w = g * hc::Conj(g) + .2 * hc::Identity(d, n);
    MatrixXd W = hc::Embed(w);
    MatrixXd Wh = gen::SymFunction(W, gen::SqrtAbs);
    VectorXd e2 = gen::Eigenvalues(Wh * hc::Embed(x) * Wh);
    double l2 = e2.minCoeff(), h2 = e2.maxCoeff(), sc = std::max(1.0, e2.cwiseAbs().maxCoeff());
    HC ws = w * x;
    double prev_lo = 1e300, prev_hi = -1e300;
    for (int it = 1; it <= n + 1; it++) {
      VectorXd est = T::ApproximateEigenvalues(Lib(ws), Lib(w), Lib(r), it);
      c.require(est.allFinite(), "weighted Krylov estimates are numbers");
      c.at_least(est.minCoeff(), l2 - 1e-6 * sc, "weighted estimate above minimum");
      c.at_most(est.maxCoeff(), h2 + 1e-6 * sc, "weighted estimate below maximum");
      if (it <= n) {
        c.at_most(est.minCoeff(), prev_lo + 1e-6 * sc, "estimate of the minimum improves");
        c.at_least(est.maxCoeff(), prev_hi - 1e-6 * sc, "estimate of the maximum improves");
        prev_lo = est.minCoeff();
        prev_hi = est.maxCoeff();
      }
    }
    // With a generic start vector the full order reaches the extremes.
    double b2 = 1;
    {
      // Exact orthogonal-polynomial norms, to know whether the recurrence
      // breaks down before full order.
      VectorXd v(d * n);
      // First column of the embedding of r carries r itself.
      v = hc::Embed(r).col(0);
      MatrixXd S = Wh * hc::Embed(x) * Wh;
      MatrixXd Q = MatrixXd::Zero(d * n, n);
      VectorXd u = Wh * v;
      for (int j = 0; j < n; j++) {
        for (int rep = 0; rep < 2; rep++)
          for (int i = 0; i < j; i++) u -= Q.col(i).dot(u) * Q.col(i);
        double nu = u.norm();
        if (j > 0) b2 = std::min(b2, nu / sc);
        if (nu < 1e-12) break;
        Q.col(j) = u / nu;
        u = S * Q.col(j);
      }
    }
    if (b2 > .05 && n > 1) {
      c.label("full order reached");
      VectorXd est = T::ApproximateEigenvalues(Lib(ws), Lib(w), Lib(r), n);
      c.small(est.minCoeff() - l2, 1e-5 * sc, "full order minimum");
      c.small(est.maxCoeff() - h2, 1e-5 * sc, "full order maximum");
    }
    if (n <= 4) {
      for (int it = 1; it <= n; it++) {
        VectorXd est = T::EigenvaluesOfJacobiMatrix(Lib(ws), Lib(w), it);
        c.require(est.allFinite(), "Jacobi estimates are numbers");
        c.at_least(est.minCoeff(), l2 - 1e-4 * sc, "Jacobi estimate above minimum");
        c.at_most(est.maxCoeff(), h2 + 1e-4 * sc, "Jacobi estimate below maximum");
      }
    }
    // Orthonormal columns.
    if (g.rows() > 0) {
      VectorXd sv = gen::Eigenvalues(hc::Embed(hc::Conj(g) * g));
      if (sv(0) > 1e-3) {
        c.label("orthogonalised");
        HC q = Model(T::Orthogonalize(Lib(g)));
        c.small(hc::Diff(hc::Conj(q) * q, hc::Identity(d, n)), 1e-7,
                "orthonormal columns");
        // Same span of leading columns: g = q R with R upper triangular.
        HC R = hc::Conj(q) * g;
        c.small(hc::Diff(q * R, g), 1e-7, "columns span the same space");
        double low = 0;
        for (int i = 0; i < n; i++)
          for (int j = 0; j < i; j++)
            for (int k = 0; k < d; k++) low = std::max(low, std::fabs(R.m[k](i, j)));
        c.small(low, 1e-7, "leading columns span the same space");
      }
    }
  }
}

template <int d>
void Norms(Case& c) {
  int r = c.integer(1, 4);
  HC x = hc::Matrix(c, d, r, r);
  c.log() << "x=" << hc::Str(x) << "\n";
  if (hc::Norm(x) > .1) c.nontrivial();
  c.small(Lib(x).norm() - hc::Norm(x), 1e-12, "norm");
  c.small(Lib(x).squaredNorm() - hc::Inner(x, x), 1e-12, "squared norm");
  VectorXd v = Lib(x).vect();
  c.require(v.size() == d * r * r, "length of the vectorisation");
  for (int i = 0; i < d; i++)
    for (int j = 0; j < r; j++)
      for (int k = 0; k < r; k++)
        c.small(v(i * r * r + j * r + k) - x.m[i](k, j), 0, "vectorisation");
  HyperComplexMatrix y = Lib(x);
  y.rescale(-1.5);
  c.small(hc::Diff(Model(y), -1.5 * x), 1e-14, "rescale");
  int j = c.integer(0, r - 1);
  HyperComplexMatrix col(Lib(x).col(j));
  for (int i = 0; i < d; i++)
    c.small(gen::Diff(col.at(i), x.m[i].col(j)), 0, "column");
  HyperComplexMatrix z = Lib(x);
  HC rep = hc::Matrix(c, d, r, 1);
  z.col(j) = Lib(rep);
  for (int i = 0; i < d; i++) {
    MatrixXd want = x.m[i];
    want.col(j) = rep.m[i];
    c.small(gen::Diff(z.at(i), want), 0, "column assignment");
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C23";
  p.rule =
      "Matrices of order 1..4 (octonion Jordan operations up to 3) with "
      "entries on a 2^-20 grid in [-1,1], or single basis elements, over each "
      "algebra; compared with an independent multiplication table, entrywise "
      "products and the real embedding. Non-trivial: both factors non-zero "
      "(arithmetic), order > 1 (Jordan, spectrum).";
  p.tests = {
      {"arithmetic-real", 20000, 4000000 / 10, Arithmetic<1>},
      {"arithmetic-complex", 30000, 6000000 / 10, Arithmetic<2>},
      {"arithmetic-quaternion", 40000, 8000000 / 10, Arithmetic<4>},
      {"arithmetic-octonion", 60000, 12000000 / 10, Arithmetic<8>},
      {"jordan-real", 15000, 3000000 / 10, JordanOps<1>},
      {"jordan-complex", 15000, 3000000 / 10, JordanOps<2>},
      {"jordan-quaternion", 15000, 3000000 / 10, JordanOps<4>},
      {"jordan-octonion", 15000, 3000000 / 10, JordanOps<8>},
      {"spectrum-real", 30000, 6000000 / 10, Spectrum<1>},
      {"spectrum-complex", 30000, 6000000 / 10, Spectrum<2>},
      {"spectrum-quaternion", 30000, 6000000 / 10, Spectrum<4>},
      {"spectrum-octonion", 20000, 4000000 / 10, Spectrum<8>},
      {"norms-complex", 10000, 1000000 / 10, Norms<2>},
      {"norms-octonion", 10000, 1000000 / 10, Norms<8>},
  };
  return pbt::Main(argc, argv, p);
}
