// C30: constraints, costs and updates that do not fit are rejected without
// trace.

#include "certify.h"
#include "cliques.h"
#include "compare.h"

using namespace prog;

namespace {

// Lists of variables that cannot be used.
std::vector<int> BadVars(Case& c, int n) {
  auto v = c.subset(n, c.integer(1, n));
  switch (c.integer(0, 2)) {
    case 0:
      v.insert(v.begin() + c.integer(0, int(v.size())), v[c.draw(v.size())]);
      c.label("duplicate");
      break;
    case 1:
      v[c.draw(v.size())] = c.boolean() ? -1 : -c.integer(2, 1000);
      c.label("negative");
      break;
    default:
      v[c.draw(v.size())] = n + (c.boolean() ? 0 : c.integer(1, 1000));
      c.label("too large");
  }
  return v;
}

Con Random(Case& c, int cols) {
  Con k;
  k.m = ModelOf(c, c.pick(std::vector<int>{
                       cones::kLinear, cones::kSoc, cones::kQuad,
                       cones::kQuadMetric, cones::kDense, cones::kReal,
                       cones::kComplex, cones::kQuaternion,
                       cones::kOctonion}));
  for (int i = 0; i < cols; i++) k.A.push_back(gen::Vector(c, k.m.dim()));
  k.c = Interior(c, k.m, .1, 3);
  if (k.m.kind == cones::kLinear && c.chance(1, 3)) k.special = kEquality;
  return k;
}

// On all variables.
bool AddToAll(conex::Program* p, const Con& k) {
  MatrixXd a, cc = k.c;
  if (!k.m.Matrixial()) a = k.Matrix();
  if (k.Equality()) return p->AddConstraint(conex::EqualityConstraints(a, cc));
  switch (k.m.kind) {
    case cones::kLinear: return p->AddConstraint(conex::LinearConstraint(a, cc));
    case cones::kSoc: return p->AddConstraint(conex::SOCConstraint(a, cc));
    case cones::kQuad: return p->AddConstraint(conex::QuadraticConstraint(a, cc));
    default:
      return p->AddConstraint(conex::QuadraticConstraint(k.m.M, a, cc));
  }
}

void Bad(Case& c, conex::Program* p, int n) {
  int before = p->NumberOfConstraints();
  int what = c.integer(0, 9);
  if (what <= 3) {  // Variables.
    auto v = BadVars(c, n);
    Con k = Random(c, int(v.size()));
    k.vars = v;
    if (k.m.kind == cones::kLinear && !k.Equality() && c.chance(1, 3)) {
      bool lower = c.boolean();
      VectorXd x = gen::Vector(c, int(v.size()));
      c.log() << "bad bounds on " << gen::Str(v) << "\n";
      c.require(lower ? p->AddConstraint(conex::LowerBound(x), v)
                      : p->AddConstraint(conex::UpperBound(x), v),
                "bounds on bad variables are accepted");
    } else {
      c.log() << "bad variables: " << Str(k) << "\n";
      c.require(Add(p, k), "a constraint on bad variables is accepted");
    }
  } else if (what <= 5) {  // Columns.
    auto v = c.subset(n, c.integer(1, n));
    Con k = Random(c, int(v.size()) + c.integer(1, 3));
    k.vars = v;
    c.log() << "too many columns: " << Str(k) << "\n";
    c.require(Add(p, k), "a constraint with too many columns is accepted");
  } else if (what == 6) {
    Con k = Random(c, n + c.integer(1, 3));
    if (k.m.Matrixial()) {
      k.m = cones::Model();
      k.m.kind = cones::kLinear;
      k.m.n = 2;
      k.m.M = MatrixXd::Identity(2, 2);
      for (auto& a : k.A) a = gen::Vector(c, 2);
      k.c = VectorXd::Ones(2);
    }
    c.log() << "too many columns on all variables: " << Str(k) << "\n";
    c.require(AddToAll(p, k),
              "a constraint with too many columns on all variables is accepted");
  } else if (what == 7) {  // Costs.
    bool variables = c.boolean();
    auto v = variables ? BadVars(c, n) : c.subset(n, c.integer(1, n));
    MatrixXd q = gen::PositiveDefinite(
        c, int(v.size()) + (variables ? 0 : c.integer(1, 3)));
    c.log() << "bad cost " << gen::Str(q) << " on " << gen::Str(v) << "\n";
    c.require(p->AddQuadraticCost(q, v), "a bad quadratic cost is accepted");
  } else if (what == 8) {  // Linear costs.
    int size = c.boolean() ? n + c.integer(1, 5) : c.integer(0, n - 1);
    c.log() << "linear cost of size " << size << "\n";
    VectorXd q = VectorXd::Constant(size, 1);
    p->AddLinearCost(q);
  } else {  // Updates.
    int id = c.boolean() ? before + c.integer(0, 50) : -c.integer(1, 1000);
    bool affine = c.boolean();
    c.log() << "update of constraint " << id << "\n";
    c.require(affine ? p->UpdateAffineTermOfConstraint(id, 3, 0, 0, 0)
                     : p->UpdateLinearOperatorOfConstraint(id, 3, 0, 0, 0, 0),
              "an update of no constraint is accepted");
  }
  c.require(p->NumberOfConstraints() == before,
            "a rejected constraint is counted");
}

void Run(Case& c, bool costs) {
  srand(int(c.draw(1000)));
  Options o;
  o.max_vars = 6;
  o.max_cons = 4;
  o.equalities = true;
  if (costs) o.kinds = {cones::kLinear};
  else if (c.chance(1, 8)) o.kinds.push_back(cones::kOctonion);
  Planted pl = Feasible(c, o);
  Spec& s = pl.s;
  if (costs) {
    int k = c.integer(1, 2);
    for (int i = 0; i < k; i++) {
      Cost q;
      q.vars = c.subset(s.n, c.integer(1, s.n));
      q.Q = gen::PositiveDefinite(c, int(q.vars.size()));
      s.costs.push_back(q);
    }
  }
  c.log() << Str(s);
  conex::Program p(s.n), fresh(s.n);
  BuildInto(s, &fresh);
  int bad = 0, solves = 0;
  auto disturb = [&] {
    while (c.chance(1, 2) && bad < 12) {
      Bad(c, &p, s.n);
      bad++;
    }
  };
  disturb();
  for (auto& k : s.cons) {
    c.require(!Add(&p, k), "a valid constraint is rejected");
    disturb();
  }
  for (auto& q : s.costs) {
    c.require(!p.AddQuadraticCost(q.Q, q.vars), "a valid cost is rejected");
    disturb();
  }
  c.require(p.NumberOfConstraints() == int(s.cons.size() + s.costs.size()),
            "number of constraints");
  int n = c.integer(1, 3);
  for (int i = 0; i < n; i++) {
    auto f = RandomConfig(c, s);
    if (costs) {
      f.enable_line_search = 1;
      f.enable_rescaling = 0;
    }
    f.max_iterations = c.pick(std::vector<int>{40, 5, 20});
    if (i > 0 && c.chance(1, 3)) {
      f.initialization_mode = 1;
      f.max_iterations = 5;
    }
    // With an objective that was added, or a new one.
    bool explicitly = c.boolean();
    if (!explicitly) {
      p.ClearLinearCosts();
      fresh.ClearLinearCosts();
      p.AddLinearCost(-s.b);
      fresh.AddLinearCost(-s.b);
    }
    disturb();
    c.log() << Str(f);
    int seed = int(c.draw(1000));
    srand(seed);
    Result a = Solve(s, &p, f, explicitly);
    srand(seed);
    Result b = Solve(s, &fresh, f, explicitly);
    c.log() << Str(a) << "without bad calls: " << Str(b);
    c.label(b.solved ? "solved" : "not solved");
    Compare(c, a, b, "rejected calls");
    solves++;
    disturb();
    // Nor do they change the solution that is stored.
    Compare(c, Collect(s, &p, f.prepare_dual_variables),
            Collect(s, &fresh, f.prepare_dual_variables), "rejected calls");
  }
  if (bad >= 2) c.nontrivial();
}

void Conic(Case& c) { Run(c, false); }
void Quadratic(Case& c) { Run(c, true); }

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C30";
  p.rule =
      "A random feasible program (all cones, equalities, costs) is built and "
      "solved one to three times, with calls that do not fit (duplicate or "
      "nonexistent variables, more columns than variables, costs of the wrong "
      "size, updates of nonexistent constraints) in between; each has to be "
      "rejected and the results are compared with those of a program that "
      "never saw them. Non-trivial: at least two bad calls.";
  p.tests = {{"conic", 20000, 400000, Conic},
             {"quadratic", 10000, 200000, Quadratic}};
  return pbt::Main(argc, argv, p);
}
