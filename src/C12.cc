// C12: the C interface computes what the C++ interface computes.
#include "capi.h"

using namespace capi;

namespace {

void Run(Case& c, bool costs) {
  Script s = RandomScript(c, costs);
  Handle h;
  Ok(c, CONEX_SetNumberOfVariables(h.p, s.n), "SetNumberOfVariables");
  conex::Program q(s.n);
  int count = 0;
  for (auto& t : s.steps) {
    c.log() << capi::Str(t) << "\n";
    capi::Apply(c, h.p, t, s.n, count);
    capi::Apply(&q, t);
    count += t.entries;
  }
  c.require(q.NumberOfConstraints() == count, "number of constraints");
  c.nontrivial();
  int solves = c.integer(1, 3);
  for (int i = 0; i < solves; i++) {
    auto f = AnyConfig(c, s);
    f.initialization_mode = i > 0 && c.boolean();
    VectorXd b = s.b;
    if (c.chance(1, 3)) b += gen::Vector(c, s.n);
    bool maximize = i == 0 ? !c.chance(1, 4) : c.boolean();
    CompareSolves(c, h.p, &q, s, maximize ? &b : nullptr, f,
                  int(c.draw(1000)), "the interface");
  }
}

void Conic(Case& c) { Run(c, false); }
void Quadratic(Case& c) { Run(c, true); }

void Defaults(Case& c) {
  CONEX_SolverConfiguration g;
  memset(static_cast<void*>(&g), int(c.draw(256)), sizeof g);
  CONEX_SetDefaultOptions(&g);
  conex::SolverConfiguration f;
  c.nontrivial();
#define FIELD(x) c.require(g.x == f.x, "default of " #x)
  FIELD(prepare_dual_variables);
  FIELD(initialization_mode);
  FIELD(inv_sqrt_mu_max);
  FIELD(minimum_mu);
  FIELD(maximum_mu);
  FIELD(divergence_upper_bound);
  FIELD(enable_line_search);
  FIELD(dinf_upper_bound);
  FIELD(final_centering_steps);
  FIELD(final_centering_tolerance);
  FIELD(initial_centering_steps_warmstart);
  FIELD(initial_centering_steps_coldstart);
  FIELD(warmstart_abort_threshold);
  FIELD(max_iterations);
  FIELD(iterative_refinement_iterations);
  FIELD(infeasibility_threshold);
  FIELD(kkt_error_tolerance);
  FIELD(enable_rescaling);
  FIELD(kkt_solver);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C12";
  p.rule =
      "Random programs built twice, through the C interface (dense, sparse, "
      "two-sided and incrementally filled constraints, quadratic costs) and "
      "through C++, solved one to three times with random options set field "
      "by field over the defaults; status, point, statistics and dual "
      "variables are compared. Non-trivial: every case.";
  p.tests = {{"conic", 20000, 400000, Conic},
             {"quadratic", 10000, 200000, Quadratic},
             {"defaults", 256, 256, Defaults}};
  return pbt::Main(argc, argv, p);
}
