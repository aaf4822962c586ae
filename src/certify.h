// The oracle for solved programs: feasibility, dual equations and gap.
#pragma once
#include "prog.h"

namespace prog {

inline double Imag(const Con& k, const VectorXd& a) {
  int re = k.m.n * (k.m.n + 1) / 2;
  return a.tail(a.size() - re).norm();
}

inline void CheckSolved(Case& c, const Spec& s, const conex::SolverConfiguration& cfg,
           const Result& r, double loose) {
  c.require(r.returned == r.solved, "return value differs from the status");
  if (!r.solved) {
    c.label("not solved");
    return;
  }
  c.label("solved");
  if (s.cons.size() > 1) c.nontrivial();
  c.require(r.y.allFinite(), "solved, but the point is not finite");
  c.require(!r.primal_infeasible && !r.dual_infeasible,
            "solved with an infeasibility flag");
  double ynorm = 1 + r.y.norm();
  // Step norms of matrix cones are estimates from below; when the centering
  // steps run out before the step is small, a point is accepted on them alone.
  bool estimated = false;
  for (auto& k : s.cons) estimated |= k.m.Matrixial() && k.m.n > 1;
  if (estimated && Exhausted(cfg, r)) {
    c.label("centering exhausted");
    return;
  }
  for (auto& k : s.cons) {
    if (k.Equality()) {
      // The solution of the scaled system is divided by 1 / sqrt(mu).
      c.small(gen::MaxAbs(k.Slack(r.y)),
              1e-6 * loose * k.Scale() * ynorm *
                  std::max(1.0, std::sqrt(r.mu)),
              "residual of an equality");
      continue;
    }
    double m = k.m.Eigenvalues(k.Slack(r.y)).minCoeff();
    c.at_least(m, -1e-8 * loose * k.Scale() * ynorm,
               "slack of a solved program");
  }
  if (!cfg.prepare_dual_variables) return;
  // Dual equations of the variables whose constraints all expose the part of
  // their dual variable that enters; gap when all of them do.
  VectorXd res = s.b, scale = VectorXd::Ones(s.n) * (1 + s.b.norm());
  std::vector<bool> known(s.n, true);
  bool all = true;
  double gap = 0, gscale = 0;
  for (size_t i = 0; i < s.cons.size(); i++) {
    const Con& k = s.cons[i];
    if (k.Equality() || k.m.Vectorial()) {
      for (int v : k.vars) known[v] = false;
      all &= k.Equality();
      continue;
    }
    const MatrixXd& d = r.duals[i];
    c.require(d.allFinite(), "dual variable is not finite");
    VectorXd x;
    if (k.m.kind == cones::kLinear) {
      x = d.col(0);
    } else {
      c.small(gen::Diff(d, d.transpose()), 1e-9 * (1 + d.norm()),
              "symmetry of a dual variable");
      hc::HC h(k.m.d, k.m.n, k.m.n);
      h.m[0] = d;
      x = k.m.Vec(h);
    }
    c.at_least(k.m.Eigenvalues(x).minCoeff(), -1e-7 * loose * (1 + k.m.Norm(x)),
               "dual variable outside its cone");
    for (size_t j = 0; j < k.vars.size(); j++) {
      if (k.m.d > 1 && Imag(k, k.A[j]) > 0) known[k.vars[j]] = false;
      res(k.vars[j]) -= k.m.Inner(k.A[j], x);
      scale(k.vars[j]) += k.m.Norm(k.A[j]) * k.m.Norm(x);
    }
    VectorXd sl = k.Slack(r.y);
    if (k.m.d > 1 && Imag(k, sl) > 1e-12) all = false;
    gap += k.m.Inner(sl, x);
    gscale += k.m.Norm(x) * k.Scale() * ynorm;
  }
  for (int v = 0; v < s.n; v++) {
    if (!known[v]) continue;
    c.label("dual equation");
    c.small(res(v), 1e-7 * loose * scale(v), "dual equation of a variable");
  }
  if (!all) return;
  c.label("gap");
  // The barrier parameter reached; the requested one unless iterations ran
  // out.
  double tol = 1e-8 * loose * gscale;
  double slackened = 1 + 2 * cfg.final_centering_tolerance;
  c.at_most(gap, r.mu * s.rank() * slackened + tol, "duality gap");
  c.at_least(gap, -tol - 1e-9 * loose * (1 + s.b.norm()), "duality gap");
  double target = 1 / (cfg.inv_sqrt_mu_max * cfg.inv_sqrt_mu_max);
  if (r.iterations + cfg.final_centering_steps < cfg.max_iterations) {
    c.label("target reached");
    c.at_most(gap, target * s.rank() * slackened + tol,
              "duality gap against the requested barrier parameter");
  }
}

inline void Box(Case& c, Planted* p) {
  Con k;
  k.m.kind = cones::kLinear;
  k.m.n = 2 * p->s.n;
  k.m.M = MatrixXd::Identity(k.m.n, k.m.n);
  k.vars = c.permutation(p->s.n);
  MatrixXd a(2 * p->s.n, p->s.n);
  a << MatrixXd::Identity(p->s.n, p->s.n), -MatrixXd::Identity(p->s.n, p->s.n);
  k.SetMatrix(a);
  k.c = VectorXd::Constant(2 * p->s.n, c.real(1.5, 10));
  p->s.cons.push_back(k);
}

}  // namespace prog
