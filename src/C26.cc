// C26: the divergence bound and its inverse are consistent.
#include "conex/divergence.h"

#include "gen.h"

using namespace conex;
using gen::VectorXd;
using pbt::Case;

namespace {

WeightedSlackEigenvalues Summary(Case& c, const VectorXd& s, bool inner) {
  WeightedSlackEigenvalues p;
  p.rank = s.size();
  p.trace = s.sum();
  p.frobenius_norm_squared = s.squaredNorm();
  p.lambda_min = s.minCoeff();
  p.lambda_max = s.maxCoeff();
  if (inner) {
    // Matrix cones report estimates of the extreme eigenvalues from inside.
    double w = p.lambda_max - p.lambda_min;
    p.lambda_min += .4 * w * c.real(0, 1);
    p.lambda_max -= .4 * w * c.real(0, 1);
  }
  return p;
}

struct Model {
  double F, t, n, lo, hi;
  double Numerator(double k) const { return k * k * F - 2 * k * t + n; }
  double NormInf(double k) const {
    return std::max(std::fabs(k * lo - 1), std::fabs(k * hi - 1));
  }
  double Bound(double k) const { return Numerator(k) / (1 - NormInf(k)); }
};

// Spectrum with lambda in (0, inf).
VectorXd Positive(Case& c, int n, std::string* kind) {
  VectorXd s(n);
  switch (c.integer(0, 3)) {
    case 0:
      *kind = "generic";
      for (int i = 0; i < n; i++) s(i) = c.real(.01, 3);
      break;
    case 1: {
      *kind = "all equal";
      double v = c.real(.1, 3);
      s.setConstant(v);
      break;
    }
    case 2:
      *kind = "spread over orders of magnitude";
      for (int i = 0; i < n; i++) s(i) = std::pow(10, c.real(-2, 2));
      break;
    default:
      *kind = "clustered with one outlier";
      for (int i = 0; i < n; i++) s(i) = 1 + .01 * c.unit();
      s(c.integer(0, n - 1)) = c.real(.05, 20);
  }
  return s * c.pick<double>({1, 1, 1, 1e-3, 1e3});
}

void Formula(Case& c) {
  int n = c.integer(1, 6);
  std::string kind;
  VectorXd s = Positive(c, n, &kind);
  if (c.chance(1, 5)) {
    // Points outside of the cone: the bound is infinite or negative there.
    for (int i = 0; i < n; i++)
      if (c.boolean()) s(i) = -s(i);
    kind = "not in the cone";
  }
  WeightedSlackEigenvalues p = Summary(c, s, false);
  double k = c.real(0, 2.5) / s.cwiseAbs().maxCoeff();
  c.label(kind);
  c.log() << "s=" << gen::Str(s) << " k=" << k << "\n";
  VectorXd d = k * s - VectorXd::Ones(n);
  double ninf = d.cwiseAbs().maxCoeff();
  if (std::fabs(1 - ninf) < 1e-6) c.discard();
  double want = d.squaredNorm() / (1 - ninf);
  double got = DivergenceUpperBound(k, p);
  c.small(got - want, 1e-9 * (1 + std::fabs(want) + n / std::fabs(1 - ninf)),
          "bound against its formula");
  if (n > 1) c.nontrivial();
  if (ninf < 1) {
    c.label("finite");
    double div = 0;
    for (int i = 0; i < n; i++) {
      double x = k * s(i);
      div += (x - 1) * (x - 1) / x;
    }
    c.at_least(got, div - 1e-9 * (1 + div), "bound against the true divergence");
  } else {
    c.at_most(got, 1e-12, "bound is not a positive number when infinite");
  }
}

void Inverse(Case& c) {
  int n = c.integer(1, 6);
  std::string kind;
  VectorXd s = Positive(c, n, &kind);
  bool inner = c.chance(1, 3);
  WeightedSlackEigenvalues p = Summary(c, s, inner);
  Model m{p.frobenius_norm_squared, p.trace, double(p.rank), p.lambda_min,
          p.lambda_max};
  // Minimise the quasi-convex bound over (0, 2/lambda_max).
  double a = 0, b = 2 / m.hi;
  for (int i = 0; i < 200; i++) {
    double u = a + (b - a) / 3, v = b - (b - a) / 3;
    // Compare f(u) <= f(v) without dividing by tiny denominators.
    if (m.Numerator(u) * (1 - m.NormInf(v)) <= m.Numerator(v) * (1 - m.NormInf(u)))
      b = v;
    else
      a = u;
  }
  double k0 = .5 * (a + b), best = m.Bound(k0);
  double level;
  int lk = c.integer(0, 3);
  if (lk == 0)
    level = c.real(0, 5);
  else if (lk == 1)
    level = best * c.real(0, 1.5);
  else if (lk == 2)
    level = best * (1 + c.real(0, 100));
  else
    level = m.Bound((2 / m.hi) * c.real(.02, .98));
  c.label(kind);
  c.label(inner ? "inner eigenvalue estimates" : "exact extreme eigenvalues");
  c.log() << "s=" << gen::Str(s) << " lmin=" << m.lo << " lmax=" << m.hi
          << " level=" << level << " best=" << best << " at " << k0 << "\n";
  if (!(level > 0) || !std::isfinite(level)) c.discard();
  // Outside of this range the closed form has no correct digits left.
  if (m.t + level * m.hi > 1e6 * m.F * k0 || level > 1e6) c.discard();
  double k = DivergenceUpperBoundInverse(level, p);
  c.require(k == k, "inverse is a number");
  if (n > 1) c.nontrivial();
  // Conditioning: the numerator cancels near its zero.
  double tol = 1e-6 * (1 + level);
  if (k > 0) {
    c.label("solution");
    c.require(m.NormInf(k) < 1, "bound is finite at the solution");
    // The closed form cancels about level * lambda against F k, and the bound
    // is steep where its denominator is small.
    double rel = 1e-14 * (10 + (m.t + level * m.hi) / (m.F * k));
    double den = 1 - m.NormInf(k);
    double slack = tol + rel * (m.n + level * m.hi * k) / den;
    c.small(m.Bound(k) - level, slack, "bound at the solution");
    c.small(DivergenceUpperBound(k, p) - level, slack,
            "library bound at the solution");
    c.at_least(level, best - slack, "a level below the minimum has no solution");
  } else {
    c.label("no solution");
    c.require(k == -1, "no solution is reported as -1");
    c.at_most(level, best * (1 + 1e-6) + 1e-9,
              "level above the minimum has a solution");
  }
  if (level > best * (1 + 1e-4) + 1e-6) {
    // Largest solution: right end of the sublevel set.
    double lo = k0, hi = 2 / m.hi;
    for (int i = 0; i < 200; i++) {
      double mid = .5 * (lo + hi);
      (m.Numerator(mid) <= level * (1 - m.NormInf(mid)) ? lo : hi) = mid;
    }
    c.label("largest solution compared");
    c.small((k - lo) / lo,
            1e-6 + 1e-14 * (m.t + level * m.hi) / (m.F * lo) *
                       (1 + 1 / (level / best - 1)),
            "largest solution");
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C26";
  p.rule =
      "Spectra (generic, equal, spread over 4 decades, outliers, also outside "
      "the cone) and levels below, at and above the attainable minimum; "
      "non-trivial: rank above one";
  p.tests = {{"formula", 400000, 8000000, Formula},
             {"inverse", 400000, 8000000, Inverse}};
  p.assumptions = {
      "levels above 1e6, or so large that the closed form cancels more than "
      "six digits, are not generated",
      "the reference inverse minimises the (quasi-convex) bound by ternary "
      "search and bisects for the right end of its sublevel set"};
  return pbt::Main(argc, argv, p);
}
