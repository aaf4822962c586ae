// C10: warm starts continue from the previous scaling and stay correct.
#include "certify.h"
#include "compare.h"

using namespace prog;

namespace {

// An objective attained over the constraints: near the planted one, or far.
VectorXd Attained(Case& c, Planted p, int how) {
  for (size_t i = 0; i < p.s.cons.size(); i++) {
    const Con& k = p.s.cons[i];
    if (k.Equality()) continue;
    VectorXd x = Interior(c, k.m, .1, 3);
    double t = how == 0 ? 0 : how == 1 ? .02 : how == 2 ? .3 : 1;
    p.x0[i] = (1 - t) * p.x0[i] + t * x;
    if (how == 4) p.x0[i] *= 30;
  }
  SetObjective(&p);
  return p.s.b;
}

conex::SolverConfiguration Config(Case& c, const Spec& s) {
  auto f = RandomConfig(c, s);
  f.inv_sqrt_mu_max = c.pick(std::vector<double>{100, 10, 30, 1000});
  f.max_iterations = c.pick(std::vector<int>{100, 50, 150, 3, 10});
  f.final_centering_steps = c.pick(std::vector<int>{10, 20, 3});
  f.prepare_dual_variables = c.boolean();
  f.initial_centering_steps_warmstart = c.chance(1, 3) ? c.integer(1, 3) : 0;
  f.warmstart_abort_threshold = c.pick(std::vector<double>{2, 1, .1, 100});
  for (auto& k : s.cons)
    if (k.Equality()) f.inv_sqrt_mu_max = std::min(f.inv_sqrt_mu_max, 100.);
  return f;
}

void Run(Case& c, const Options& o) {
  Planted p = Feasible(c, o);
  const Spec& s = p.s;
  c.log() << Str(s);
  srand(int(c.draw(1000)));
  conex::Program prog(s.n);
  BuildInto(s, &prog);
  int n = c.integer(2, 5);
  for (int i = 0; i < n; i++) {
    Spec t = s;
    int how = i == 0 ? 0 : c.integer(0, 4);
    t.b = Attained(c, p, how);
    auto f = Config(c, s);
    f.initialization_mode = i > 0 && !c.chance(1, 8);
    c.log() << (f.initialization_mode ? "warm" : "cold")
            << " abort=" << f.warmstart_abort_threshold
            << " centering=" << f.initial_centering_steps_warmstart
            << " duals=" << f.prepare_dual_variables << " maximise "
            << gen::Str(MatrixXd(t.b.transpose())) << " " << Str(f);
    Result r = Solve(t, &prog, f);
    c.log() << Str(r);
    if (f.initialization_mode) {
      c.nontrivial();
      c.label(r.solved ? "warm: solved" : "warm: not solved");
    }
    CheckSolved(c, t, f, r, 1);
    c.require(int(r.inv_sqrt_mu.size()) <= f.max_iterations,
              "more iterations recorded than allowed");
    for (double k : r.inv_sqrt_mu)
      c.require(k > 0 && std::isfinite(k), "a recorded barrier parameter is not positive");
  }
}

// Solving again from the scaling of a solution takes a few steps.
void Resume(Case& c) {
  Options o;
  o.max_vars = 5;
  Planted p = Feasible(c, o);
  c.log() << Str(p.s);
  srand(int(c.draw(1000)));
  conex::Program prog(p.s.n);
  BuildInto(p.s, &prog);
  auto f = RandomConfig(c, p.s);
  f.inv_sqrt_mu_max = c.pick(std::vector<double>{10, 30, 100});
  f.prepare_dual_variables = c.boolean();
  c.log() << "duals=" << f.prepare_dual_variables << " " << Str(f);
  Result a = Solve(p.s, &prog, f);
  c.log() << Str(a);
  if (!a.solved || Exhausted(f, a)) return;
  c.nontrivial();
  f.initialization_mode = 1;
  // The statistics may need more or less room than before.
  int limit = c.pick(std::vector<int>{0, 1, 7, 50, 400, -10});
  f.max_iterations += limit;
  Result b = Solve(p.s, &prog, f);
  c.log() << "warm with " << f.max_iterations << " iterations " << Str(b);
  c.require(b.solved, "the warm start does not solve");
  c.at_most(b.iterations, 3, "iterations of the warm start");
}

// A warm start whose first step is always too large is a cold start.
// A warm start whose first system cannot be factored, since the previous solve
// was driven towards a face until factorization failed.
void Collapse(Case& c) {
  Options o;
  o.max_vars = 4;
  // Matrix inequalities: see the recorded finding of C01.
  o.kinds = {cones::kLinear, cones::kSoc, cones::kQuad, cones::kQuadMetric};
  Planted p = Feasible(c, o);
  Box(c, &p);  // Any objective is attained.
  Planted q = p;
  q.x0.push_back(VectorXd::Zero(p.s.cons.back().m.dim()));
  for (auto& x : q.x0) x.setZero();
  size_t i = c.draw(q.x0.size());
  q.x0[i] = p.s.cons[i].m.Random(c, .5, 2);
  if (c.boolean() && p.s.cons[i].m.kind == cones::kLinear) {
    VectorXd x = VectorXd::Zero(q.x0[i].size());
    int j = int(c.draw(x.size()));
    x(j) = q.x0[i](j);
    q.x0[i] = x;
  }
  SetObjective(&q);
  Spec first = q.s, then = p.s;
  then.b = gen::Vector(c, p.s.n);
  c.log() << Str(first) << "then maximise "
          << gen::Str(MatrixXd(then.b.transpose()));
  auto f = Config(c, p.s);
  f.kkt_solver = 0;
  f.iterative_refinement_iterations = 0;
  f.max_iterations = 150;
  f.final_centering_steps = 20;
  f.enable_rescaling = 0;
  f.initial_centering_steps_coldstart = 0;
  auto g = f;
  g.inv_sqrt_mu_max = c.pick(std::vector<double>{1e8, 1e9, 1e11, 1e15});
  g.max_iterations = c.pick(std::vector<int>{80, 40, 150});
  unsigned seed = unsigned(c.draw(1000));
  conex::Program prog(p.s.n);
  BuildInto(p.s, &prog);
  srand(seed);
  Result r = Solve(first, &prog, g);
  c.log() << Str(g) << Str(r) << "then " << Str(f);
  c.label(r.solved ? "first solved" : "first not solved");
  // Does the system of the scaling that is left have a factorization?
  prog.solver->SetSolverMode(0);
  prog.solver->Assemble();
  bool factors = prog.solver->Factor();
  f.initialization_mode = 1;
  f.initial_centering_steps_warmstart = 0;
  f.warmstart_abort_threshold = c.pick(std::vector<double>{2, 1, .1});
  srand(seed);
  Result warm = Solve(then, &prog, f);
  f.initialization_mode = 0;
  srand(seed);
  Result cold = Solve(then, f);
  c.log() << "warm " << Str(warm) << "cold " << Str(cold);
  if (!warm.inv_sqrt_mu.empty() && warm.iterations > 1) c.nontrivial();
  CheckSolved(c, then, f, warm, 1);
  c.label(warm.solved ? "warm solved" : "warm not solved");
  c.label(cold.solved ? "cold solved" : "cold not solved");
  c.label(factors ? "factors" : "does not factor");
  if (factors) return;
  c.require(warm.solved == cold.solved,
            "a warm start from a collapsed scaling does not fall back");
  size_t m = cold.inv_sqrt_mu.size(), shift = warm.inv_sqrt_mu.size() - m;
  c.require(shift <= 1, "steps of a warm start that falls back");
  for (size_t j = 0; j < m; j++)
    c.require(Same(warm.inv_sqrt_mu[j + shift], cold.inv_sqrt_mu[j]),
              "steps of a warm start that falls back");
}

void Fallback(Case& c) {
  Options o;
  o.max_vars = 5;
  o.equalities = c.chance(1, 4);
  Planted p = Feasible(c, o);
  Spec t = p.s;
  t.b = Attained(c, p, c.integer(0, 4));
  c.log() << Str(p.s) << "then maximise "
          << gen::Str(MatrixXd(t.b.transpose()));
  auto f = Config(c, p.s);
  f.enable_rescaling = 0;
  f.max_iterations = 150;
  unsigned seed = unsigned(c.draw(1000));
  conex::Program prog(p.s.n);
  BuildInto(p.s, &prog);
  srand(seed);
  c.log() << Str(f) << Str(Solve(p.s, &prog, f));
  f.warmstart_abort_threshold = 0;
  f.initial_centering_steps_warmstart = f.initial_centering_steps_coldstart = 0;
  f.initialization_mode = 1;
  srand(seed);
  Result warm = Solve(t, &prog, f);
  f.initialization_mode = 0;
  srand(seed);
  Result cold = Solve(t, f);
  c.log() << "warm " << Str(warm) << "cold " << Str(cold);
  c.nontrivial();
  c.label(cold.solved ? "solved" : "not solved");
  auto steps = [](const Result& r) {
    int k = 0;
    for (double v : r.inv_sqrt_mu) k += v < r.inv_sqrt_mu.back() * (1 - 1e-9);
    return k;
  };
  bool same = steps(warm) == steps(cold) + 1;
  c.label(same ? "one more step" : "other number of steps");
  CheckSolved(c, t, f, warm, 1);
  if (!cold.solved || Exhausted(f, cold)) return;
  c.require(warm.solved, "the aborted warm start does not solve");
  // Step norms of hermitian cones are estimated from random vectors.
  bool random = false;
  for (auto& k : p.s.cons)
    random |= k.m.Matrixial() && k.m.kind != cones::kDense;
  c.small(steps(warm) - steps(cold) - 1, random ? 4 : 1,
          "steps to the target of an aborted warm start beyond one more");
}

// The first step of a warm start is taken if its norm is below the threshold.
void Threshold(Case& c) {
  Options o;
  o.max_vars = 4;
  o.kinds = {cones::kLinear};
  Planted p = Feasible(c, o);
  const Spec& s = p.s;
  Spec t = s;
  t.b = Attained(c, p, c.integer(0, 4));
  auto f = Config(c, s);
  f.enable_rescaling = 0;
  f.max_iterations = 100;
  f.final_centering_steps = 5;
  f.prepare_dual_variables = 0;
  f.infeasibility_threshold = 1e9;
  f.inv_sqrt_mu_max = c.pick(std::vector<double>{100, 10, 3});
  c.log() << Str(s) << Str(f) << "then maximise "
          << gen::Str(MatrixXd(t.b.transpose()));
  conex::Program one(s.n), two(s.n);
  BuildInto(s, &one);
  BuildInto(s, &two);
  Result a = Solve(s, &one, f);
  Solve(s, &two, f);
  if (!a.solved) c.discard();
  a = Collect(s, &one, true);
  // One step, measured from outside.
  f.initialization_mode = 1;
  f.max_iterations = 1;
  f.warmstart_abort_threshold = 1e100;
  Result b = Solve(t, &one, f);
  if (b.inv_sqrt_mu.size() != 1 || !b.y.allFinite() || b.primal_infeasible ||
      b.dual_infeasible)
    c.discard();
  double k = b.inv_sqrt_mu[0], d = 0;
  for (size_t i = 0; i < s.cons.size(); i++) {
    VectorXd w = a.duals[i].col(0) * a.inv_sqrt_mu.back();
    VectorXd sl = s.cons[i].Slack(b.y) * k;
    d = std::max(d, (1 - w.array() * sl.array()).abs().maxCoeff());
  }
  double ratio = c.pick(std::vector<double>{.5, .97, 1.03, 2, .05, 20});
  f.warmstart_abort_threshold = d * ratio;
  c.log() << "step of norm " << d << ", threshold "
          << f.warmstart_abort_threshold << "\n";
  if (d < 1e-4) c.discard();
  c.nontrivial();
  Solve(t, &two, f);
  Result q = Collect(s, &two, true);
  double off = 0;
  for (auto& x : q.duals)
    off = std::max(off, (x.array() * q.inv_sqrt_mu.back() - 1).abs().maxCoeff());
  if (ratio < 1)
    c.small(off, 1e-9, "distance from the cold starting point of an aborted warm start");
  else
    c.at_least(off, 1e-9, "distance from the cold starting point of a warm start within the threshold");
}

// Constraints added after a solve; there is no scaling to continue from.
void Grow(Case& c) {
  Options o;
  o.max_vars = 4;
  o.max_cons = 5;
  o.equalities = c.chance(1, 4);
  Planted p = Feasible(c, o);
  const Spec& s = p.s;
  int total = int(s.cons.size());
  // The first constraints that determine every variable.
  int k = 1;
  auto first = [&](int m) {
    Spec q = s;
    q.cons.resize(m);
    q.b = VectorXd::Zero(s.n);
    for (int i = 0; i < m; i++)
      for (size_t j = 0; j < s.cons[i].vars.size(); j++)
        q.b(s.cons[i].vars[j]) +=
            s.cons[i].m.Inner(s.cons[i].A[j], p.x0[i]);
    return q;
  };
  while (k < total && gen::Eigenvalues(first(k).Gram()).minCoeff() < .02) k++;
  if (k == total) c.discard();
  srand(int(c.draw(1000)));
  VectorXd workspace;
  bool external = c.boolean();
  if (external) workspace = VectorXd::Constant(c.pick(std::vector<int>{100000, 3000, 500}), c.real(-1, 1));
  auto owned = external ? std::make_unique<conex::Program>(s.n, &workspace)
                        : std::make_unique<conex::Program>(s.n);
  conex::Program& prog = *owned;
  c.log() << Str(s) << (external ? "caller's workspace\n" : "");
  for (int built = 0; k <= total;) {
    // A warm start of a new program continues from the caller's memory.
    bool cold = (external && built == 0) || c.chance(1, 8);
    Spec part = s;
    part.cons.assign(s.cons.begin() + built, s.cons.begin() + k);
    if (built > 0) part.costs.clear();
    BuildInto(part, &prog);
    bool grown = built > 0 && k > built;
    built = k;
    Spec t = first(k);
    auto f = Config(c, t);
    f.initialization_mode = !cold;
    c.log() << k << " constraints, " << (f.initialization_mode ? "warm " : "cold ")
            << "maximise " << gen::Str(MatrixXd(t.b.transpose())) << " "
            << Str(f);
    Result r = Solve(t, &prog, f);
    c.log() << Str(r);
    if (grown && f.initialization_mode) {
      c.nontrivial();
      c.label(r.solved ? "grown: solved" : "grown: not solved");
    }
    CheckSolved(c, t, f, r, 1);
    if (k == total && c.boolean()) break;
    if (k < total && c.chance(2, 3)) k += c.integer(1, total - k);
    else if (c.chance(1, 3)) break;
  }
}

void Linear(Case& c) {
  Options o;
  o.kinds = {cones::kLinear};
  o.equalities = c.chance(1, 3);
  Run(c, o);
}
void Mixed(Case& c) {
  Options o;
  o.max_vars = 5;
  o.equalities = c.chance(1, 3);
  Run(c, o);
}
void Exposed(Case& c) {
  Options o;
  o.max_vars = 5;
  o.kinds = {cones::kLinear, cones::kDense, cones::kReal};
  o.equalities = c.chance(1, 4);
  Run(c, o);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C10";
  p.rule =
      "Random programs solved cold and then warm several times with equal, "
      "perturbed and unrelated objectives and other options; each solved run "
      "is judged by the certificate of C01; warm starts with the abort "
      "threshold just below and above the norm of their first step. Non-trivial: at least one warm "
      "start.";
  p.tests = {{"linear", 20000, 300000, Linear},
             {"mixed", 20000, 300000, Mixed},
             {"exposed", 20000, 300000, Exposed},
             {"fallback", 20000, 300000, Fallback},
             {"collapse", 10000, 150000, Collapse},
             {"threshold", 20000, 300000, Threshold},
             {"resume", 20000, 300000, Resume},
             {"grow", 20000, 300000, Grow}};
  return pbt::Main(argc, argv, p);
}
