// C27: two-sided inequality preprocessing preserves the feasible set.
#include "conex/linear_constraint.h"

#include "gen.h"

using gen::MatrixXd;
using gen::VectorXd;
using pbt::Case;

namespace {
const double kInf = std::numeric_limits<double>::infinity();

struct Row {
  VectorXd a;
  double b;
  bool equality;
  std::string from;
};

double Infinite(Case& c) { return c.pick<double>({kInf, 1e20, 1e9, 1e300}); }

// Is (a2, b2) a positive multiple of (a, b)?
bool Proportional(const VectorXd& a, double b, const VectorXd& a2, double b2,
                  bool any_sign) {
  VectorXd u(a.size() + 1), v(a.size() + 1);
  u << a, b;
  v << a2, b2;
  double nu = u.norm(), nv = v.norm();
  if (!(nu > 0) || !(nv > 0) || !std::isfinite(nv)) return false;
  u /= nu;
  v /= nv;
  double d = (u - v).cwiseAbs().maxCoeff();
  if (any_sign) d = std::min(d, (u + v).cwiseAbs().maxCoeff());
  return d < 1e-12;
}

void Preprocess(Case& c) {
  int m = c.integer(1, 8), n = c.integer(1, 5);
  int style = c.integer(0, 2);
  MatrixXd A(m, n), lb(m, 1), ub(m, 1);
  std::vector<Row> want;
  bool interesting = false;
  int kinds = 0;
  for (int i = 0; i < m; i++) {
    double scale = std::pow(10.0, c.integer(0, 3) == 3 ? c.smallint(4) : 0);
    for (int j = 0; j < n; j++)
      A(i, j) = scale * (style == 0 ? c.smallint(2) : c.unit());
    if (c.chance(1, 8)) A.row(i).setZero();
    if (c.chance(1, 8)) scale = std::pow(10.0, c.integer(5, 7));
    double x = c.integer(0, 4) == 0 ? 0 : scale * c.smallint(5) + .5 * c.smallint(1);
    double w = c.real(.01, 3) * scale;
    bool zero_row = A.row(i).isZero(0);
    if (zero_row && x == 0) x = 1;  // All-zero rows are excluded.
    int kind = c.integer(0, 5);
    kinds |= 1 << kind;
    switch (kind) {
      case 0:
        lb(i) = -Infinite(c);
        ub(i) = x;
        break;
      case 1:
        lb(i) = x;
        ub(i) = Infinite(c);
        break;
      case 2:
        lb(i) = x;
        ub(i) = x;
        break;
      case 3:
        lb(i) = x - w;
        ub(i) = x;
        if (zero_row && lb(i) == 0) lb(i) = -1;
        break;
      case 4:
        lb(i) = -Infinite(c);
        ub(i) = Infinite(c);
        break;
      default:  // Almost equal, but not an equality.
        lb(i) = x;
        ub(i) = std::nextafter(x, kInf) + 1e-9 * c.integer(0, 2);
        if (!zero_row || (lb(i) != 0 && ub(i) != 0)) break;
        ub(i) = lb(i) = 1;
    }
    VectorXd a = A.row(i);
    if (lb(i) == ub(i)) {
      want.push_back({a, ub(i), true, "equality"});
    } else {
      if (ub(i) < 1e8) want.push_back({a, ub(i), false, "upper"});
      if (lb(i) > -1e8) want.push_back({-a, -lb(i), false, "lower"});
    }
    interesting |= kind == 3 || kind == 2 || kind == 5;
  }
  c.log() << "A=" << gen::Str(A) << " lb=" << gen::Str(lb)
          << " ub=" << gen::Str(ub) << "\n";
  if (interesting && m > 1) c.nontrivial();
  MatrixXd Ai, bi, Ae, be;
  conex::PreprocessLinearInequality(A, lb, ub, &Ai, &bi, &Ae, &be);
  c.require(Ai.rows() == bi.rows() && Ae.rows() == be.rows(),
            "matrices and right-hand sides have the same number of rows");
  c.require(Ai.allFinite() && bi.allFinite() && Ae.allFinite() &&
                be.allFinite(),
            "output is finite");
  int ni = 0, ne = 0;
  for (auto& r : want) (r.equality ? ne : ni)++;
  c.require(Ai.rows() == ni, "number of inequality rows");
  c.require(Ae.rows() == ne, "number of equality rows");
  if (ni) c.require(Ai.cols() == n && bi.cols() == 1, "columns");
  if (ne) c.require(Ae.cols() == n && be.cols() == 1, "columns");
  // Each expected row is present exactly once, up to a positive factor
  // (equalities: any non-zero factor).
  std::vector<bool> ui(ni), ue(ne);
  for (auto& r : want) {
    auto& used = r.equality ? ue : ui;
    bool found = false;
    for (size_t k = 0; k < used.size() && !found; k++) {
      if (used[k]) continue;
      VectorXd a2 = r.equality ? Ae.row(k).transpose().eval()
                               : Ai.row(k).transpose().eval();
      double b2 = r.equality ? be(k) : bi(k);
      if (Proportional(r.a, r.b, a2, b2, r.equality)) used[k] = found = true;
    }
    c.require(found, "row from " + r.from + " bound is present: a=" +
                         gen::Str(r.a) + " b=" + std::to_string(r.b));
  }
  // Membership of sampled points, away from the boundary.
  for (int t = 0; t < 4; t++) {
    VectorXd x = gen::Vector(c, n) * std::pow(10.0, c.smallint(2));
    if (t == 1 && m) {  // Onto one of the rows' hyperplanes.
      int i = c.integer(0, m - 1);
      double s = A.row(i).squaredNorm();
      double rhs = std::fabs(ub(i)) < 1e8 ? ub(i) : lb(i);
      if (s > 0 && std::fabs(rhs) < 1e8)
        x += A.row(i).transpose() * ((rhs - A.row(i).dot(x)) / s);
    }
    bool in = true, out = true, close = false;
    for (int i = 0; i < m; i++) {
      double v = A.row(i).dot(x);
      double tol = 1e-9 * (1 + A.row(i).norm() * x.norm());
      double l = lb(i) <= -1e8 ? -kInf : lb(i), u = ub(i) >= 1e8 ? kInf : ub(i);
      if (std::fabs(v - l) < tol + 1e-9 * std::fabs(l) ||
          std::fabs(v - u) < tol + 1e-9 * std::fabs(u))
        close = true;
      if (!(v >= l && v <= u)) in = false;
    }
    if (close) continue;
    for (int k = 0; k < ni; k++)
      if (!(Ai.row(k).dot(x) <= bi(k))) out = false;
    for (int k = 0; k < ne; k++)
      if (!(Ae.row(k).dot(x) == be(k))) out = false;
    c.label(in ? "sampled point inside" : "sampled point outside");
    c.require(in == out, "membership of a sampled point");
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C27";
  p.rule =
      "Up to 8 rows with every pattern of equal, nearly equal, one-sided, "
      "two-sided and infinite bounds, zero rows and row scales over 8 decades; "
      "non-trivial: at least two rows with an equality or two-sided row";
  p.tests = {{"split", 200000, 4000000, Preprocess}};
  p.assumptions = {
      "bounds of magnitude 1e9 and more are infinite, finite bounds are below "
      "1e6 in magnitude; rows that are entirely zero together with a zero "
      "finite bound are excluded"};
  return pbt::Main(argc, argv, p);
}
