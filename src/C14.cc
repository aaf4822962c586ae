// C14: options change effort and accuracy, not the answer.
#include "certify.h"

using namespace prog;

namespace {

// Costs on top of a planted pair, which stays one.
void AddCosts(Case& c, Planted* p) {
  int k = c.integer(1, 2);
  for (int i = 0; i < k; i++) {
    Cost q;
    q.vars = c.subset(p->s.n, c.integer(1, p->s.n));
    q.Q = gen::PositiveDefinite(c, int(q.vars.size()));
    if (c.chance(1, 3)) q.Q *= c.pick(std::vector<double>{.1, 4});
    for (size_t a = 0; a < q.vars.size(); a++)
      for (size_t b = 0; b < q.vars.size(); b++)
        p->s.b(q.vars[a]) += q.Q(a, b) * p->y0(q.vars[b]);
    p->s.costs.push_back(q);
  }
}

double Objective(const Spec& s, const VectorXd& y) {
  double r = s.b.dot(y);
  for (auto& q : s.costs)
    for (size_t a = 0; a < q.vars.size(); a++)
      for (size_t b = 0; b < q.vars.size(); b++)
        r -= .5 * y(q.vars[a]) * q.Q(a, b) * y(q.vars[b]);
  return r;
}

conex::SolverConfiguration Config(Case& c, const Spec& s) {
  auto f = RandomConfig(c, s);
  f.inv_sqrt_mu_max = c.pick(std::vector<double>{100, 10, 30, 1000, 1e4});
  for (auto& k : s.cons)
    if (k.Equality()) f.inv_sqrt_mu_max = std::min(f.inv_sqrt_mu_max, 100.);
  f.max_iterations = c.pick(std::vector<int>{150, 100, 200});
  f.final_centering_tolerance = c.pick(std::vector<double>{.01, .1, .001});
  f.prepare_dual_variables = c.boolean();
  f.dinf_upper_bound = c.pick(std::vector<double>{1, .8, 1.3});
  if (c.chance(1, 4)) f.maximum_mu = c.pick(std::vector<double>{1e6, 100, 1e8});
  if (c.chance(1, 4)) f.minimum_mu = c.pick(std::vector<double>{1e-12, 0, 1e-6});
  if (c.chance(1, 6)) f.infeasibility_threshold = 1e8;
  if (!s.costs.empty()) {
    f.enable_line_search = 1;
    f.enable_rescaling = 0;
    f.max_iterations = 500;
    f.final_centering_steps = 20;
  }
  return f;
}

// Next to the central point of the requested parameter.
bool Centered(const conex::SolverConfiguration& f, const Result& r) {
  double target = 1 / (f.inv_sqrt_mu_max * f.inv_sqrt_mu_max);
  return r.solved && !Exhausted(f, r) && r.mu <= target * (1 + 1e-9);
}

// Distance of two points next to the same central point, in the scaling of the
// slacks.
void CheckSame(Case& c, const Spec& s, const Result& a, const Result& b,
               double tol) {
  for (auto& k : s.cons) {
    if (k.Equality()) continue;
    VectorXd sa = k.Slack(a.y), sb = k.Slack(b.y);
    double scale = k.Scale() * (1 + a.y.norm() + b.y.norm());
    // (1 - tol) sa <= sb <= (1 + tol) sa in the order of the cone.
    double t = tol + 1e-6 * scale / std::max(1e-300, k.m.Norm(sa));
    VectorXd lo = sb - (1 - t) * sa, hi = (1 + t) * sa - sb;
    double slack = 1e-7 * scale;
    c.at_least(k.m.Eigenvalues(lo).minCoeff(), -slack,
               "slacks of two configurations differ");
    c.at_least(k.m.Eigenvalues(hi).minCoeff(), -slack,
               "slacks of two configurations differ");
  }
}

void Pair(Case& c, Planted p) {
  const Spec& s = p.s;
  auto f = Config(c, s), g = Config(c, s);
  bool same = c.chance(2, 3);
  if (same) g.inv_sqrt_mu_max = f.inv_sqrt_mu_max;
  c.log() << Str(s) << Str(f) << Str(g);
  srand(int(c.draw(1000)));
  Result a = Solve(s, f), b = Solve(s, g);
  c.log() << Str(a) << Str(b);
  if (!Centered(f, a) || !Centered(g, b)) {
    c.label(a.solved && b.solved ? "not centered" : "not solved");
    return;
  }
  c.nontrivial();
  double rank = s.rank();
  auto gap = [&](const conex::SolverConfiguration& h, const Result& r) {
    return r.mu * rank * (1 + 2 * h.final_centering_tolerance);
  };
  double oa = Objective(s, a.y), ob = Objective(s, b.y);
  double noise = 1e-7 * (1 + std::fabs(oa) + std::fabs(ob) +
                         s.b.norm() * (a.y.norm() + b.y.norm()));
  c.log() << "objectives " << oa << " " << ob << "\n";
  c.small(oa - ob, std::max(gap(f, a), gap(g, b)) + noise,
          "objectives of two configurations");
  double off = f.final_centering_tolerance + g.final_centering_tolerance;
  if (f.inv_sqrt_mu_max == g.inv_sqrt_mu_max) {
    c.label("same target");
    double tol = rank * off * off;
    if (tol < .5) CheckSame(c, s, a, b, tol);
  } else {
    c.label("other target");
    bool tighter = f.inv_sqrt_mu_max > g.inv_sqrt_mu_max;
    double mu = std::max(a.mu, b.mu);
    c.at_least((tighter ? oa - ob : ob - oa),
               -mu * rank * off * off - noise,
               "objective of the tighter target beyond that of the other");
  }
}

void Conic(Case& c) {
  Options o;
  o.equalities = c.chance(1, 3);
  Pair(c, Feasible(c, o));
}
void Linear(Case& c) {
  Options o;
  o.kinds = {cones::kLinear};
  o.equalities = c.chance(1, 3);
  Pair(c, Feasible(c, o));
}
void Quadratic(Case& c) {
  Options o;
  o.kinds = {cones::kLinear};
  o.equalities = c.chance(1, 3);
  Planted p = Feasible(c, o);
  AddCosts(c, &p);
  Pair(c, p);
}

// Iterations and statistics, whatever becomes of the run.
void Limits(Case& c) {
  Options o;
  o.max_vars = 5;
  o.equalities = c.chance(1, 4);
  if (c.chance(1, 3)) o.kinds = {cones::kLinear};
  Planted p = Feasible(c, o);
  Spec& s = p.s;
  bool costs = s.LinearOnly() && c.boolean();
  if (costs) AddCosts(c, &p);
  int spoil = int(c.draw(3));
  if (spoil == 1) s.b = gen::Vector(c, s.n) * 10;
  if (spoil == 2)
    for (auto& k : s.cons)
      if (!k.Equality() && c.boolean()) k.c = gen::Vector(c, k.m.dim());
  c.log() << Str(s);
  srand(int(c.draw(1000)));
  conex::Program prog(s.n);
  BuildInto(s, &prog);
  int n = c.integer(1, 4);
  bool last = false;
  bool diverge = c.chance(1, 3);  // Scalings overflow before warm starts.
  for (int i = 0; i < n; i++) {
    auto f = Config(c, s);
    f.inv_sqrt_mu_max = c.pick(std::vector<double>{1000, 1, 10, 1e5});
    f.max_iterations = c.pick(std::vector<int>{1, 2, 3, 5, 10, 25, 60, 0});
    f.final_centering_steps = c.pick(std::vector<int>{0, 1, 5, 100});
    f.final_centering_tolerance = c.pick(std::vector<double>{1, .01, 1e-9});
    f.initial_centering_steps_coldstart = c.pick(std::vector<int>{0, 3, 100});
    f.initial_centering_steps_warmstart = c.pick(std::vector<int>{0, 3, 100});
    f.warmstart_abort_threshold = c.pick(std::vector<double>{2, 0, 1, 1e9});
    if (!costs) f.dinf_upper_bound = c.pick(std::vector<double>{1, .1, 3});
    if (diverge) {
      f.max_iterations = c.pick(std::vector<int>{200, 60, 5});
      f.maximum_mu = c.pick(std::vector<double>{1e4, 1, 1e8});
      f.final_centering_steps = c.pick(std::vector<int>{0, 5});
      f.final_centering_tolerance = 1e-9;
      f.prepare_dual_variables = 0;
      if (!f.enable_line_search) f.dinf_upper_bound = 1e3;
      f.divergence_upper_bound = 1e6;
      f.kkt_solver = int(c.draw(2));
    }
    bool refused = costs && c.chance(1, 8);
    if (refused) {
      f.enable_rescaling = c.boolean();
      f.enable_line_search = f.enable_rescaling && c.boolean();
    }
    f.initialization_mode = c.chance(1, 2);
    if (i > 0 && c.chance(1, 2)) s.b = gen::Vector(c, s.n) * 3;
    if (i > 0) c.nontrivial();
    c.log() << (f.initialization_mode ? "warm abort=" : "cold abort=")
            << f.warmstart_abort_threshold
            << " warm centering=" << f.initial_centering_steps_warmstart
            << " steps=" << f.final_centering_steps
            << " maximum_mu=" << f.maximum_mu
            << " duals=" << f.prepare_dual_variables << " " << Str(f);
    Result r = Solve(s, &prog, f);
    c.log() << Str(r);
    c.label(r.solved ? "solved" : "not solved");
    if (i > 0 && f.initialization_mode && !r.inv_sqrt_mu.empty() && last)
      c.label("warm start after a factorisation that failed");
    last = r.y(0) == -12345.678;
    c.require(r.returned == r.solved, "return value differs from the status");
    c.require(r.iterations <= f.max_iterations, "iteration limit exceeded");
    c.require(r.iterations == int(r.inv_sqrt_mu.size()),
              "not one barrier parameter for each iteration");
    if (refused) {
      c.label("refused");
      c.require(!r.solved && r.iterations == 0,
                "options without support for costs are not refused");
      continue;
    }
    if (f.max_iterations == 0)
      c.require(!r.solved, "solved without an iteration");
    double most = f.inv_sqrt_mu_max / std::sqrt(r.b_scaling * r.c_scaling);
    for (double k : r.inv_sqrt_mu) {
      c.require(std::isfinite(k) && k > 0,
                "a recorded barrier parameter is not positive");
      c.at_most(k, most * (1 + 1e-9), "barrier parameter beyond the target");
      c.at_least(k, std::min(most, 1 / std::sqrt(f.maximum_mu)) * (1 - 1e-9),
                 "barrier parameter before the largest");
    }
    if (r.solved && r.iterations >= f.max_iterations)
      c.label("solved in the last iteration");
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C14";
  p.rule =
      "Random strictly feasible programs (all cones, equalities, quadratic "
      "costs) solved under two random configurations; limits: histories of "
      "solves of feasible, infeasible and unbounded programs under extreme "
      "options. Non-trivial: both runs solved and centered at the requested "
      "target; limits: more than one solve.";
  p.tests = {{"conic", 30000, 500000, Conic},
             {"linear", 20000, 300000, Linear},
             {"quadratic", 20000, 300000, Quadratic},
             {"limits", 20000, 300000, Limits}};
  return pbt::Main(argc, argv, p);
}
