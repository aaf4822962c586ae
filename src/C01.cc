// C01: a solved program comes with a feasible point and a certificate.
#include "certify.h"

using namespace prog;

namespace {

void Run(Case& c, const Options& o, bool bounded) {
  srand(int(c.draw(1000)));
  Planted p = Feasible(c, o);
  if (bounded) {
    // Any objective is attained over a bounded set.
    Box(c, &p);
    p.s.b = gen::Vector(c, p.s.n) * c.pick(std::vector<double>{1, 10, .01});
    if (c.chance(1, 3))
      for (int i = 0; i < p.s.n; i++) p.s.b(i) = std::round(p.s.b(i));
  }
  auto cfg = RandomConfig(c, p.s);
  // Multipliers are eliminated in a fixed order with absolute pivot thresholds,
  // which loses the dual variables next to the boundary.
  for (auto& k : p.s.cons)
    if (k.Equality()) cfg.inv_sqrt_mu_max = std::min(cfg.inv_sqrt_mu_max, 100.);
  c.log() << Str(p.s) << Str(cfg);
  Result r = Solve(p.s, cfg);
  c.log() << Str(r);
  CheckSolved(c, p.s, cfg, r, 1);
}

void Mixed(Case& c) {
  Options o;
  o.real_data = true;
  o.decades = c.chance(1, 2) ? 1.5 : 0;
  o.equalities = o.decades == 0 && c.boolean();
  Run(c, o, false);
}
void Exposed(Case& c) {
  // Only cones that expose dual variables.
  Options o;
  o.kinds = {cones::kLinear, cones::kLinear,  cones::kDense,
             cones::kReal,   cones::kComplex, cones::kQuaternion};
  o.real_data = true;
  o.decades = c.chance(1, 2) ? 1.5 : 0;
  o.equalities = o.decades == 0 && c.boolean();
  Run(c, o, false);
}
void Bounded(Case& c) {
  Options o;
  o.real_data = true;
  o.max_cons = 3;
  Run(c, o, true);
}
// Strictly feasible, with any objective: bounded, unbounded, zero.
void Unrestricted(Case& c) {
  srand(int(c.draw(1000)));
  Options o;
  Planted p = Feasible(c, o);
  p.s.b = gen::Vector(c, p.s.n) * c.pick(std::vector<double>{1, 100, 1e-4, 0});
  auto cfg = RandomConfig(c, p.s);
  cfg.infeasibility_threshold = c.pick(std::vector<double>{1e5, 1e3, 1e7});
  c.log() << Str(p.s) << Str(cfg);
  Result r = Solve(p.s, cfg);
  c.log() << Str(r);
  c.require(r.returned == r.solved, "return value differs from the status");
  c.label(r.solved ? "solved" : "not solved");
  if (!r.solved) return;
  c.nontrivial();
  c.require(r.y.allFinite(), "solved, but the point is not finite");
  c.require(!r.primal_infeasible && !r.dual_infeasible,
            "solved with an infeasibility flag");
}
// A recorded finding: with a target this small, rounding moves the scaling
// point of the matrix inequality out of the cone on the way.
void Recorded(Case& c) {
  Spec s;
  s.n = 1;
  Con k;
  k.m.kind = cones::kDense;
  k.m.n = 4;
  k.m.M = MatrixXd::Identity(4, 4);
  k.vars = {0};
  VectorXd a(10);
  a << 0.66566658020019531, 0.27221488952636719, 0.10261440277099609,
      -0.060367584228515625, 0.27983474731445312, -0.42247104644775391,
      0.36295795440673828, 0.89809894561767578, 0, 0.43181037902832031;
  k.A = {a};
  k.c.resize(10);
  k.c << 1.3871843321015862, 0.14224329140724945, 1.1475092006567005,
      -0.14559569983363682, -0.091224229476356444, 1.339006372008368,
      0.28817877473768538, 0.46262444568922279, -0.2292902547440373,
      1.3809647866549122;
  Con box;
  box.m.kind = cones::kLinear;
  box.m.n = 2;
  box.m.M = MatrixXd::Identity(2, 2);
  box.vars = {0};
  VectorXd e(2);
  e << 1, -1;
  box.A = {e};
  box.c = VectorXd::Constant(2, 10);
  s.cons = {k, box};
  s.b = VectorXd::Constant(1, 0.2014135769450672);
  conex::SolverConfiguration f;
  f.inv_sqrt_mu_max = 1e8;
  f.max_iterations = 80;
  f.final_centering_steps = 20;
  f.enable_rescaling = 0;
  f.prepare_dual_variables = int(c.draw(2));
  c.log() << Str(s) << Str(f);
  Result r = Solve(s, f);
  c.log() << Str(r);
  c.nontrivial();
  if (r.solved && s.MinSlack(r.y) < -1e-6)
    c.finding("dense-lmi-mu-1e-16",
              "a dense matrix inequality of order 4 is violated by a solved "
              "program at inv_sqrt_mu_max=1e8");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C01";
  p.rule =
      "Random programs of 1-5 constraints (linear inequalities, bounds, dense "
      "and hermitian real, complex and quaternion matrix inequalities, "
      "second-order and quadratic cones) on random variable subsets, strictly "
      "feasible around a planted point, with a planted objective or any "
      "objective over a bounded set, and a random configuration; unrestricted: "
      "any objective, finiteness only. Non-trivial: reported solved (with more "
      "than one constraint where the certificate is judged).";
  p.tests = {{"mixed", 40000, 600000, Mixed},
             {"exposed", 40000, 600000, Exposed},
             {"bounded", 30000, 400000, Bounded},
             {"unrestricted", 20000, 300000, Unrestricted},
             {"recorded", 10, 10, Recorded}};
  p.assumptions = {
      "The dual variable of a complex or quaternion block is exposed through "
      "its real part only; equations and gap are compared where that part "
      "determines them."};
  return pbt::Main(argc, argv, p);
}
