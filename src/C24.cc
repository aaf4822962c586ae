// C24: exponential maps and geodesic updates approximate the true exponential.
#include "conex/exponential_map.h"
#include "conex/exponential_map_pade.h"
#include "conex/newton_step.h"

#include "hc.h"

using namespace conex;
using gen::MatrixXd;
using gen::VectorXd;
using hc::HC;
using pbt::Case;

namespace {

HyperComplexMatrix Lib(const HC& x) {
  HyperComplexMatrix y(x.d);
  for (int i = 0; i < x.d; i++) y.at(i) = x.m[i];
  return y;
}
HC Model(const HyperComplexMatrix& x) {
  HC y;
  y.d = static_cast<int>(x.size());
  for (auto& m : x) y.m.push_back(m);
  return y;
}

// The stated approximations as scalar functions.
double Pade(double x) {
  return (120 + 60 * x + 12 * x * x + x * x * x) /
         (120 - 60 * x + 12 * x * x - x * x * x);
}
double Taylor(double x) {
  double t = 1 + x / 4 + x * x / 32;
  return t * t * t * t;
}
double Series(double x) {
  double s = 0, t = 1;
  for (int i = 0; i < 12; i++) {
    s += t;
    t *= x / (i + 1);
  }
  return s;
}
double Square(double x) { return (1.5 + x / 2) * (1.5 + x / 2); }

// Largest error the stated approximation makes on the given spectrum.
double Allowed(const VectorXd& ev, double (*approx)(double), double shift = 0) {
  double e = 0;
  for (int i = 0; i < ev.size(); i++)
    e = std::max(e, std::fabs(approx(ev(i)) - std::exp(ev(i) + shift)));
  return 1.001 * e + 1e-9;
}

// Symmetric with a spectrum of the solver's size.
MatrixXd Argument(Case& c, int n) {
  double scale = c.pick<double>({.01, .3, 1, 2});
  return gen::SymmetricWithSpectrum(c, n, -scale, scale);
}

void PadeSymmetric(Case& c) {
  int n = c.integer(1, 8);
  MatrixXd a = Argument(c, n);
  c.log() << "a=" << gen::Str(a) << "\n";
  if (n > 1 && gen::MaxAbs(a) > 1e-3) c.nontrivial();
  // The result map is written where the caller points it to.
  VectorXd storage = VectorXd::Constant(n * n, 7);
  Ref out(storage.data(), n, n);
  ExponentialMapPadeApproximation(a, &out);
  VectorXd ev = gen::Eigenvalues(a);
  MatrixXd want = gen::SymFunction(a, gen::Exp);
  c.small(gen::Diff(out, want), Allowed(ev, Pade), "error of exp");
  c.small(gen::Diff(out, MatrixXd(out).transpose()), 1e-11, "symmetry");
  VectorXd oe = gen::Eigenvalues(out);
  c.at_least(oe.minCoeff(), 1e-12, "positive definite");
  for (int i = 0; i < n; i++)
    c.small(oe(i) - std::exp(ev(i)), Allowed(ev.segment(i, 1), Pade),
            "eigenvalue of exp");
  // exp(a) exp(-a) = I for the diagonal approximant.
  VectorXd s2(n * n);
  Ref inv(s2.data(), n, n);
  ExponentialMapPadeApproximation(-a, &inv);
  c.small(gen::Diff(out * inv, MatrixXd::Identity(n, n)), 1e-9,
          "exp(a) exp(-a)");
}

// Arguments W S similar to symmetric ones, as the solver passes them.
void PadeProduct(Case& c) {
  int n = c.integer(1, 8);
  MatrixXd d = Argument(c, n);
  MatrixXd w = gen::PositiveDefinite(c, n, .2, 4);
  MatrixXd wh = gen::SymFunction(w, gen::SqrtAbs);
  MatrixXd whi = wh.inverse();
  MatrixXd a = wh * d * whi;
  c.log() << "a=" << gen::Str(a) << "\n";
  if (n > 1 && gen::MaxAbs(a) > 1e-3) c.nontrivial();
  VectorXd storage(n * n);
  Ref out(storage.data(), n, n);
  ExponentialMapPadeApproximation(a, &out);
  MatrixXd back = whi * MatrixXd(out) * wh;
  c.small(gen::Diff(back, gen::SymFunction(d, gen::Exp)),
          30 * Allowed(gen::Eigenvalues(d), Pade) + 1e-8, "similar exp");
  MatrixXd exact = gen::SymFunction(d, Pade);
  (void)exact;
  for (int i = 0; i < n; i++) {
    // Eigenvalues are similarity invariant.
    VectorXd be = gen::Eigenvalues(back);
    VectorXd de = gen::Eigenvalues(d);
    c.small(be(i) - std::exp(de(i)), Allowed(de.segment(i, 1), Pade) + 1e-8,
            "eigenvalue of exp");
  }
}

template <int d>
HC Herm(Case& c, int n, double bound) {
  HC x = hc::Hermitian(c, d, n);
  VectorXd ev = hc::Eigenvalues(x);
  double m = ev.cwiseAbs().maxCoeff();
  if (m > bound) x = (bound / m) * x;
  return x;
}

template <int d>
void Hyper(Case& c) {
  using T = MatrixAlgebra<d>;
  int n = c.integer(1, d == 8 ? 3 : 4);
  HC x = Herm<d>(c, n, c.pick<double>({.05, .5, 2}));
  VectorXd ev = hc::Eigenvalues(x);
  c.log() << "x=" << hc::Str(x) << "\n";
  if (n > 1 && ev.cwiseAbs().maxCoeff() > 1e-3) c.nontrivial();
  HyperComplexMatrix out = T::Zero(n, n);
  ExponentialMap(Lib(x), &out);
  HC o = Model(out);
  c.small(hc::Diff(o, hc::Conj(o)), 1e-10, "hermitian");
  VectorXd oe = hc::Eigenvalues(o);
  c.at_least(oe.minCoeff(), 1e-3, "positive definite");
  const double tol = d == 8 ? 1e-6 : 1e-8;
  for (int i = 0; i < n; i++)
    c.small(oe(i) - std::exp(ev(i)), Allowed(ev.segment(i, 1), Taylor) + tol,
            "eigenvalue of exp");
  if (n == 1 || hc::MinGap(ev) > .05) {
    c.label("compared as a matrix");
    HC want = hc::Function(x, gen::Exp);
    c.small(hc::Diff(o, want), Allowed(ev, Taylor) + 1e-6, "error of exp");
  }
}

// Q(w^(1/2)) f(Q(w^(1/2)) s) for w positive definite.
template <int d>
void Geodesic(Case& c) {
  int n = c.integer(1, d == 8 ? 3 : 4);
  HC g = hc::Hermitian(c, d, n);
  VectorXd ge = hc::Eigenvalues(g);
  if (n > 1 && hc::MinGap(ge) < .1) c.discard();
  // w = exp(g) and w^(1/2) = exp(g/2) as functions of the same g.
  HC w = hc::Function(g, gen::Exp);
  HC wh = hc::Function(g, +[](double x) { return std::exp(x / 2); });
  HC whi = hc::Function(g, +[](double x) { return std::exp(-x / 2); });
  double bound = c.pick<double>({.1, .8, 1.8});
  HC dir = Herm<d>(c, n, bound);
  VectorXd de = hc::Eigenvalues(dir);
  HC s = hc::Quad(whi, dir);
  c.log() << "w=" << hc::Str(w) << " s=" << hc::Str(s) << "\n";
  if (n > 1 && de.cwiseAbs().maxCoeff() > 1e-3) c.nontrivial();
  double wmax = std::exp(ge.maxCoeff());

  HC got = d == 8 ? Model(GeodesicUpdate(Lib(w), Lib(s)))
                  : Model(GeodesicUpdate(Lib(w), Lib(s)));
  HC back = hc::Quad(whi, got);
  VectorXd be = hc::Eigenvalues(back);
  const double tol = 1e-6;
  c.small(hc::Diff(got, hc::Conj(got)), 1e-10 * (1 + wmax), "hermitian");
  for (int i = 0; i < n; i++)
    c.small(be(i) - std::exp(de(i)), Allowed(de.segment(i, 1), Series) + tol,
            "eigenvalue of the geodesic");
  HC got2 = Model(GeodesicUpdateScaled(Lib(w), Lib(s)));
  HC back2 = hc::Quad(whi, got2);
  VectorXd be2 = hc::Eigenvalues(back2);
  c.small(hc::Diff(got2, hc::Conj(got2)), 1e-10 * (1 + wmax), "hermitian");
  for (int i = 0; i < n; i++)
    c.small(be2(i) - std::exp(1 + de(i)),
            Allowed(de.segment(i, 1), Square, 1) + tol,
            "eigenvalue of the scaled geodesic");
  if (n == 1 || hc::MinGap(de) > .05) {
    c.label("compared as a matrix");
    HC want = hc::Quad(wh, hc::Function(dir, gen::Exp));
    c.small(hc::Diff(got, want), (Allowed(de, Series) + 1e-6) * (1 + wmax),
            "geodesic");
    HC want2 = hc::Quad(wh, hc::Function(dir, Square));
    double slack = Allowed(de, Square, 1) * 0 + 1e-6;
    HC exact = hc::Quad(wh, hc::Function(dir, +[](double x) { return std::exp(1 + x); }));
    c.small(hc::Diff(got2, exact),
            hc::Diff(want2, exact) * 1.001 + slack * (1 + wmax),
            "scaled geodesic");
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C24";
  p.rule =
      "Symmetric, hermitian (complex, quaternion, octonion) and W*S arguments "
      "of order 1..8 with spectral radius up to 2, compared with the exact "
      "exponential from an eigendecomposition within the error of the stated "
      "approximant on that spectrum. Non-trivial: order > 1 and argument not "
      "(nearly) zero.";
  p.assumptions = {
      "The stated approximants are the (3,3) Pade approximant, the degree-2 "
      "Taylor polynomial with two squarings, the degree-11 series and the "
      "n=2 product formula of exp(e+x)."};
  p.tests = {
      {"pade-symmetric", 60000, 1000000, PadeSymmetric},
      {"pade-product", 30000, 500000, PadeProduct},
      {"exp-real", 20000, 300000, Hyper<1>},
      {"exp-complex", 20000, 300000, Hyper<2>},
      {"exp-quaternion", 20000, 300000, Hyper<4>},
      {"exp-octonion", 20000, 300000, Hyper<8>},
      {"geodesic-real", 10000, 200000, Geodesic<1>},
      {"geodesic-complex", 10000, 200000, Geodesic<2>},
      {"geodesic-quaternion", 10000, 200000, Geodesic<4>},
      {"geodesic-octonion", 15000, 200000, Geodesic<8>},
  };
  return pbt::Main(argc, argv, p);
}
