// C09: a solve depends only on the program, not on its history.

#include "certify.h"
#include "compare.h"

using namespace prog;

namespace {

conex::SolverConfiguration Config(Case& c, const Spec& s) {
  auto f = RandomConfig(c, s);
  f.max_iterations = c.pick(std::vector<int>{40, 60, 5, 2, 15});
  f.final_centering_steps = c.pick(std::vector<int>{5, 10, 2, 0});
  f.prepare_dual_variables = c.chance(2, 3);
  if (c.chance(1, 6)) f.maximum_mu = 100;
  if (c.chance(1, 8)) f.infeasibility_threshold = 1e3;
  f.dinf_upper_bound = c.pick(std::vector<double>{1, .9, 1.3});
  if (!s.costs.empty()) {
    f.enable_line_search = 1;
    f.enable_rescaling = 0;
  }
  return f;
}

VectorXd Objective(Case& c, const Spec& s) {
  switch (c.integer(0, 3)) {
    case 0: return s.b;
    case 1: return s.b + .2 * gen::Vector(c, s.n);
    case 2: return VectorXd::Zero(s.n);
    default: return gen::Vector(c, s.n) * c.pick(std::vector<double>{1, 10, 1e3});
  }
}

Spec RandomSpec(Case& c, bool linear) {
  Options o;
  o.max_vars = 5;
  o.max_cons = 3;
  if (linear) o.kinds = {cones::kLinear};
  o.equalities = c.chance(1, 3);
  Planted p = Feasible(c, o);
  if (c.chance(1, 3)) Box(c, &p);
  if (linear && c.boolean()) {
    Cost q;
    q.vars = c.subset(p.s.n, c.integer(1, p.s.n));
    q.Q = gen::PositiveDefinite(c, int(q.vars.size()));
    p.s.costs.push_back(q);
  }
  if (c.chance(1, 8))  // Perhaps infeasible.
    for (auto& k : p.s.cons)
      if (k.special == kPlain) k.c -= c.real(0, 3) * k.m.Identity();
  return p.s;
}

void Perturb(Case& c) { pbt::FillMemory(c.integer(0, 255)); }

void Run(Case& c, bool linear) {
  Spec s = RandomSpec(c, linear);
  c.log() << Str(s);
  VectorXd workspace;
  bool external = c.chance(1, 3);
  if (external) {
    workspace.resize(c.pick(std::vector<int>{0, 1, 100, 5000}));
    workspace.setConstant(c.pick(std::vector<double>{
        0, 1e300, std::numeric_limits<double>::quiet_NaN(), -3}));
    c.log() << "workspace of size " << workspace.size() << " filled with "
            << (workspace.size() ? workspace(0) : 0) << "\n";
  }
  conex::Program prog = external ? conex::Program(s.n, &workspace)
                                 : conex::Program(s.n);
  BuildInto(s, &prog);
  if (!external) prog.workspace_data_ = &prog.memory_;
  int events = c.integer(0, 4), solves = 0;
  int capacity = 0;
  for (int i = 0; i < events; i++) {
    Perturb(c);
    int kind = c.integer(0, 8);
    if (kind <= 4) {
      Spec t = s;
      t.b = Objective(c, s);
      auto f = Config(c, s);
      if (kind == 4 && solves > 0) {
        f.initialization_mode = 1;
        f.max_iterations = std::min(f.max_iterations, capacity);
        c.label("warm solve");
      } else {
        capacity = f.max_iterations;
      }
      Result r = Solve(t, &prog, f);
      solves++;
      c.log() << (f.initialization_mode ? "warm " : "") << "solve maximising "
              << gen::Str(MatrixXd(t.b.transpose())) << " " << Str(f) << Str(r);
      c.label(r.solved ? "history: solved"
                       : r.primal_infeasible || r.dual_infeasible
                             ? "history: infeasible"
                             : "history: failed");
    } else if (kind == 5) {
      GetFeasibleObjective(&prog);
      capacity = 25;
      solves++;
      c.log() << "feasible objective\n";
      c.label("feasible objective");
    } else if (kind == 6) {
      VectorXd v = gen::Vector(c, s.n);
      prog.AddLinearCost(v);
      c.log() << "cost added\n";
    } else if (kind == 7 && solves) {
      for (size_t k = 0; k < s.cons.size(); k++) {
        const Con& q = s.cons[k];
        if (q.Equality() || q.m.Vectorial() || q.m.kind == cones::kOctonion)
          continue;
        MatrixXd x(q.m.n, q.m.kind == cones::kLinear ? 1 : q.m.n);
        prog.GetDualVariable(int(k), &x);
      }
      c.log() << "dual variables\n";
    } else {
      Spec other = RandomSpec(c, linear);
      auto f = Config(c, other);
      c.log() << "solve of another program " << Str(other);
      Solve(other, f);
      c.label("another program");
    }
  }
  Spec t = s;
  t.b = Objective(c, s);
  auto f = Config(c, s);
  int seed = int(c.draw(1000));
  c.log() << "observed: maximise " << gen::Str(MatrixXd(t.b.transpose())) << " "
          << Str(f);
  Perturb(c);
  srand(seed);
  Result a = Solve(t, &prog, f);
  Perturb(c);
  srand(seed);
  Result b = Solve(t, f);
  c.log() << Str(a) << Str(b);
  if (solves > 0 || external) c.nontrivial();
  c.label(a.solved ? "solved" : "not solved");
  Compare(c, a, b, "the history");
}

void Conic(Case& c) { Run(c, false); }
void Linear(Case& c) { Run(c, true); }
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C09";
  p.rule =
      "Random programs observed after random histories (solves with other "
      "objectives and options, warm, failing and infeasible solves, feasible "
      "objective and dual queries, other programs, garbage in the supplied "
      "workspace and in fresh heap memory) against a fresh program. "
      "Non-trivial: the program had been solved or queried before, or had a "
      "used workspace.";
  p.tests = {{"conic", 40000, 500000, Conic}, {"linear", 40000, 500000, Linear}};
  return pbt::Main(argc, argv, p);
}
