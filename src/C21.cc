// C21: steps keep the scaling point in the cone and follow the geodesic.
#include "cones.h"

using namespace cones;

namespace {

double Pade(double x) {
  double u = 60 * x + x * x * x, v = 120 + 12 * x * x;
  return (v + u) / (v - u);
}
double Hermite(double x) {
  double p = 1 + x / 4 + x * x / 32;
  return std::pow(p, 4);
}

void Step(Case& c) {
  srand(int(c.draw(1000)));
  Model m = RandomModel(c, true);
  Rig r(c, m);
  c.label(Name(m.kind));
  int rounds = c.integer(1, 4);
  r.w = r.ProbeW();
  VectorXd e = m.Identity();
  for (int i = 0; i < rounds; i++) {
    c.small(gen::Diff(r.ProbeW(), r.w), 0, "probing moved the point");
    double k = c.unit() * 2;
    static const std::vector<double> radius{1e-3, .05, .5, 1, 1.4, 2, 3};
    double rad = c.pick(radius);
    VectorXd d = m.Random(c, -rad, rad);
    if (c.chance(1, 20)) d.setZero();
    VectorXd wmh = m.Fn(r.w, [](double v) { return 1 / std::sqrt(v); });
    VectorXd wh = m.Fn(r.w, [](double v) { return std::sqrt(v); });
    VectorXd minus_s = m.Q(wmh, VectorXd(d - e));
    double cond = r.Cond();
    VectorXd y = r.Solve(c, minus_s, k);
    double ns = 1 + m.Norm(minus_s) + std::fabs(k) * m.Norm(r.c) + y.norm();
    double wmax = m.Eigenvalues(r.w).maxCoeff();
    // Rounding of Q(w^1/2) s, relative to the data it is made of.
    double eps = 1e-12 * cond * (1 + wmax * ns) * (1 + wmax * ns);
    if (eps > 1e-5) {
      r.p->Reset();
      r.w = r.ProbeW();
      continue;
    }
    conex::StepOptions o;
    o.affine = false;
    o.c_weight = k;
    o.e_weight = 1;
    conex::StepInfo info;
    info.norminfd = info.normsqrd = -1;
    r.p->Prepare(o, r.Y(y), &info);
    VectorXd ev = m.Eigenvalues(d);
    double ninf = ev.cwiseAbs().maxCoeff(), n2 = m.Inner(d, d);
    c.log() << "d spectrum " << gen::Str(MatrixXd(ev.transpose()))
            << " reported " << info.normsqrd << " " << info.norminfd << "\n";
    c.small(info.normsqrd - n2, eps, "reported squared norm of the step");
    if (m.kind != kOctonion) {
      // Dense blocks use the root mean square, which has the rounding of the
      // squared norm.
      c.at_most(info.norminfd, std::sqrt(ninf * ninf + eps) + eps,
                "reported largest eigenvalue");
      bool exact = !m.Matrixial() || m.n == 1;
      if (exact)
        c.at_least(info.norminfd, ninf - eps,
                   "largest eigenvalue, exact cones");
      if (!m.Matrixial())
        c.small(info.norminfd - ninf, eps, "largest eigenvalue, exact cones");
      if (m.kind > kDense && m.n == 2) {
        // Two Krylov iterations resolve the spectrum unless the random start
        // is close to an eigenvector.
        double best = info.norminfd;
        for (int t = 0; t < 6; t++) {
          if (m.kind == kOctonion) break;
          conex::StepInfo other;
          r.p->Prepare(o, r.Y(y), &other);
          best = std::max(best, other.norminfd);
        }
        if (ev.maxCoeff() - ev.minCoeff() > .2 && eps < 1e-8)
          c.at_least(best, ninf - 1e-4, "largest eigenvalue, order two");
      }
    }
    o.step_size = ninf * ninf > 2 ? 2 / (ninf * ninf) : 1;
    if (c.chance(1, 4)) o.step_size *= c.real(.1, 1);
    if (m.kind == kOctonion) o.step_size = 1;
    r.p->Take(o);
    VectorXd want, w = r.ProbeW();
    double slack = 0;
    double t = o.step_size;
    if (m.kind == kOctonion) {
      // Full steps use the second-order approximation.
      want = m.Q(wh, m.Fn(d, [](double x) { return std::exp(x); }));
      for (int q = 0; q < ev.size(); q++)
        slack = std::max(slack, std::fabs(std::pow(1 + ev(q) / 2, 2) -
                                          std::exp(ev(q))));
    } else {
      want = m.Q(wh, m.Fn(VectorXd(t * d), [](double x) { return std::exp(x); }));
      if (m.Matrixial()) {
        for (int q = 0; q < ev.size(); q++) {
          double x = t * ev(q);
          double f = m.kind == kDense ? Pade(x) : Hermite(x);
          slack = std::max(slack, std::fabs(f - std::exp(x)));
        }
      }
    }
    // Compare in the local coordinates Q(w^-1/2) of the old point.
    VectorXd err = m.Q(wmh, VectorXd(w - want));
    double big = std::exp(std::min(4.0, ninf));
    c.at_most(m.Eigenvalues(err).cwiseAbs().maxCoeff(),
              1.02 * slack + 10 * big * eps + 1e-10 * cond,
              "distance of the new point from the geodesic");
    VectorXd wev = m.Eigenvalues(w);
    if (ninf * t < 2 || m.kind != kOctonion)
      c.require(wev.minCoeff() > -1e-12 * cond * wmax &&
                    (cond > 1e5 || wev.minCoeff() > 0),
                "the new scaling point leaves the cone");
    if (m.kind == kLinear || m.kind == kDense) {
      // What the dual variable is read from.
      MatrixXd W =
          m.kind == kLinear
              ? MatrixXd(static_cast<ProbeOf<conex::LinearConstraint>*>(
                             r.p.get())
                             ->o->workspace()
                             ->W)
              : MatrixXd(static_cast<ProbeOf<conex::DenseLMIConstraint>*>(
                             r.p.get())
                             ->o->workspace()
                             ->W);
      MatrixXd ref = m.kind == kLinear ? MatrixXd(w) : m.Mat(w).m[0];
      c.small(gen::Diff(W, ref), 1e-12 * (1 + ref.norm()),
              "exposed scaling point");
    }
    if (rad > 1e-3 && r.users) c.nontrivial();
    if (i) c.label(std::string("from moved ") + Name(m.kind));
    r.w = w;
    if (!(r.Cond() < 1e4 && wev.minCoeff() > 1e-3) || !m.Regular(w) ||
        !m.Regular(d)) {
      r.p->Reset();
      r.w = r.ProbeW();
      c.small(gen::Diff(r.w, e), 1e-12, "scaling point after reset");
    }
  }

  // The affine step that prepares dual variables: w + Q(w) A y.
  bool affine = m.kind == kLinear || (m.kind >= kDense && m.kind < kOctonion);
  if (affine) {
    VectorXd y = gen::Vector(c, r.vars());
    conex::StepOptions o;
    o.affine = true;
    conex::StepInfo info;
    r.p->Prepare(o, r.Y(y), &info);
    VectorXd want = r.w + m.Q(r.w, r.Apply(y));
    VectorXd got = r.ProbeW();
    double sc = (1 + m.Norm(r.w)) * (1 + m.Norm(r.w)) * (1 + y.norm());
    c.small(gen::Diff(got, want), 1e-11 * sc, "affine step");
    c.label("affine");
  }
}

// The interval a line search reports for inequalities.
void Search(Case& c) {
  Model m;
  m.kind = kLinear;
  m.n = c.integer(1, 6);
  m.M = MatrixXd::Identity(m.n, m.n);
  Rig r(c, m);
  for (int i = c.integer(0, 2); i > 0; i--) {
    VectorXd y = gen::Vector(c, r.vars());
    conex::StepOptions o;
    o.affine = false;
    o.c_weight = .5;
    o.e_weight = 1;
    conex::StepInfo info;
    r.p->Prepare(o, r.Y(y), &info);
    o.step_size = .5;
    r.p->Take(o);
  }
  r.w = r.ProbeW();
  if (r.w.minCoeff() < 1e-2 || r.w.maxCoeff() > 1e2) c.discard();
  VectorXd y0 = gen::Vector(c, r.vars()), y1 = gen::Vector(c, r.vars());
  if (c.chance(1, 2)) y0 *= .1;
  conex::LineSearchParameters par;
  par.c0_weight = c.chance(1, 2) ? 0 : c.unit();
  par.c1_weight = c.real(0, 1);
  par.dinf_upper_bound = c.pick(std::vector<double>{1, .5, 2, 1.3});
  VectorXd d0 = VectorXd::Ones(m.n) +
                r.w.cwiseProduct(r.Apply(y0) - par.c0_weight * r.c);
  VectorXd d1 = VectorXd::Ones(m.n) +
                r.w.cwiseProduct(r.Apply(y1) - par.c1_weight * r.c);
  double lo = -1e300, hi = 1e300;
  for (int i = 0; i < m.n; i++) {
    double dl = d1(i) - d0(i);
    if (std::fabs(dl) < 1e-6) c.discard();
    double a = (par.dinf_upper_bound - d0(i)) / dl;
    double b = (-par.dinf_upper_bound - d0(i)) / dl;
    lo = std::max(lo, std::min(a, b));
    hi = std::min(hi, std::max(a, b));
  }
  std::vector<double> raw0, raw1;
  auto put = [&](std::vector<double>& raw, const VectorXd& v) {
    raw.assign(v.size() + 8, 0);
    double* d = reinterpret_cast<double*>(
        (reinterpret_cast<uintptr_t>(raw.data()) + 31) / 32 * 32);
    for (int i = 0; i < v.size(); i++) d[i] = v(i);
    return conex::Ref(d, v.size(), 1);
  };
  conex::LineSearchOutput out;
  bool failure = PerformLineSearch(
      static_cast<ProbeOf<conex::LinearConstraint>*>(r.p.get())->o.get(), par,
      put(raw0, y0), put(raw1, y1), &out);
  double tol = 1e-8 * (1 + std::fabs(lo) + std::fabs(hi));
  if (m.n > 1) c.nontrivial();
  if (lo > hi + tol) {
    c.label("empty");
    c.require(failure, "empty line-search interval not reported");
    return;
  }
  if (lo > hi - tol) c.discard();
  c.label("interval");
  c.require(!failure, "nonempty line-search interval reported as empty");
  c.small(out.lower_bound - lo, tol, "lower end of the line search");
  c.small(out.upper_bound - hi, tol, "upper end of the line search");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C21";
  p.rule =
      "Random cone (nine kinds), up to 4 rounds; each round chooses a step "
      "direction of known spectrum (radius 1e-3 to 3), sets the slack that "
      "produces it and takes a full or damped step. Non-trivial: a step of "
      "radius above 1e-3 through a constraint with random data columns; for "
      "line searches, more than one row.";
  p.tests = {{"step", 40000, 500000, Step}, {"search", 20000, 300000, Search}};
  p.assumptions = {
      "Octonion steps are compared for full steps only, and their largest "
      "eigenvalue, a stated heuristic, is not compared."};
  return pbt::Main(argc, argv, p);
}
