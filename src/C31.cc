// C31: the feasible objective of a program is attained.

#include "certify.h"
#include "compare.h"

using namespace prog;

namespace {

// What the objective is by definition: half the sum of A'e.
VectorXd Half(const Spec& s) {
  VectorXd b = VectorXd::Zero(s.n);
  for (auto& k : s.cons) {
    if (k.Equality()) continue;
    for (size_t j = 0; j < k.vars.size(); j++)
      b(k.vars[j]) += .5 * k.m.Inner(k.A[j], k.m.Identity());
  }
  return b;
}

void Run(Case& c, bool costs) {
  srand(int(c.draw(1000)));
  Options o;
  o.max_vars = 6;
  o.max_cons = 4;
  o.equalities = c.boolean();
  if (costs) o.kinds = {cones::kLinear};
  Planted pl = Feasible(c, o);
  Spec& s = pl.s;
  if (costs) {
    Cost q;
    q.vars = c.subset(s.n, c.integer(1, s.n));
    q.Q = gen::PositiveDefinite(c, int(q.vars.size()));
    s.costs.push_back(q);
  }
  c.log() << Str(s);
  conex::Program p(s.n);
  BuildInto(s, &p);
  auto f = RandomConfig(c, s);
  f.inv_sqrt_mu_max = c.pick(std::vector<double>{100, 30, 1000});
  f.final_centering_steps = 25;
  f.max_iterations = 150;
  if (costs) {
    f.enable_line_search = 1;
    f.enable_rescaling = 0;
  }
  int before = c.integer(0, 2);
  for (int i = 0; i < before; i++) {
    auto g = f;
    g.max_iterations = c.pick(std::vector<int>{100, 3, 10});
    Spec t = s;
    t.b = gen::Vector(c, s.n) * c.pick(std::vector<double>{1, 1e3});
    Result r = Solve(t, &p, g);
    c.log() << "earlier " << Str(r);
  }
  pbt::FillMemory(c.integer(0, 255));
  MatrixXd b = conex::GetFeasibleObjective(&p);
  c.log() << "feasible objective " << gen::Str(b) << "\n" << Str(f);
  VectorXd model = Half(s);
  c.require(b.cols() == 1 && b.rows() == s.n,
            "the feasible objective has an entry for each variable");
  double scale = 1;
  for (auto& k : s.cons) scale += k.Scale() * k.m.rank();
  c.small(gen::Diff(b, MatrixXd(model)), 1e-12 * scale, "feasible objective");
  s.b = b.col(0);
  Result r = Solve(s, &p, f);
  c.log() << Str(r);
  bool estimated = false;
  for (auto& k : s.cons)
    estimated |= k.m.Matrixial() && k.m.n > (k.m.kind == cones::kDense ? 1 : 2);
  c.require(!r.primal_infeasible && !r.dual_infeasible,
            "a feasible program with its feasible objective is flagged");
  // Where eigenvalues are estimated, centering may run out of steps.
  c.require(r.solved || estimated,
            "a feasible program with its feasible objective is not solved");
  if (!costs) CheckSolved(c, s, f, r, 10);
  c.nontrivial();
}

void Conic(Case& c) { Run(c, false); }
void Quadratic(Case& c) { Run(c, true); }

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C31";
  p.rule =
      "The feasible objective of a random strictly feasible program (all "
      "cones, equalities, costs), fresh or after other solves, is compared "
      "with its definition and then solved for. Non-trivial: all.";
  p.tests = {{"conic", 20000, 400000, Conic},
             {"quadratic", 8000, 160000, Quadratic}};
  return pbt::Main(argc, argv, p);
}
