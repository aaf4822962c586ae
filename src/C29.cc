// C29: no program makes the solver touch memory it does not own.

#include "cliques.h"
#include "prog.h"

using namespace prog;

namespace {

struct Entry {
  int dual = -1;  // Size of its dual variable; unknown if negative.
  int vars = 0, n = 0, d = 1;
  bool cost = false;
};

struct State {
  int n = 0;
  gen::Cliques sets;
  VectorXd y0;
  std::vector<Entry> entries;
  bool costs = false, cones = true;
  bool tame = false;  // Only feasible data of reasonable scale.
  VectorXd b;         // An objective that is attained.
};

double Extreme(Case& c) {
  return c.pick(std::vector<double>{1, 1, 1, 1e-8, 1e8, 1e150, 1e-150, 0});
}

// Data of a constraint on `vars`: feasible at y0, or anything.
Con Fill(Case& c, const State& s, int kind, const std::vector<int>& vars) {
  Con k;
  k.m = ModelOf(c, kind);
  k.vars = vars;
  bool degenerate = !s.tame && c.chance(1, 10);
  for (size_t i = 0; i < vars.size(); i++) {
    VectorXd a = gen::Vector(c, k.m.dim());
    if (degenerate && c.boolean()) a *= Extreme(c);
    if (!s.tame && c.chance(1, 20)) a.setZero();
    if (!s.tame && i > 0 && c.chance(1, 20)) a = k.A[0];
    k.A.push_back(a);
  }
  if (!s.tame && c.chance(1, 8)) {
    k.c = gen::Vector(c, k.m.dim()) * (degenerate ? Extreme(c) : 1);
  } else {
    k.c = Interior(c, k.m, c.pick(std::vector<double>{.1, 1, 1e-3}), 3);
    for (size_t i = 0; i < vars.size(); i++) k.c += s.y0(vars[i]) * k.A[i];
  }
  return k;
}

std::vector<int> Vars(Case& c, const State& s) {
  if (!s.sets.empty() && c.chance(3, 4)) return c.pick(s.sets);
  return c.subset(s.n, c.integer(1, std::min(s.n, 5)));
}

std::vector<int> BadVars(Case& c, const State& s) {
  auto v = Vars(c, s);
  switch (c.integer(0, 3)) {
    case 0: v.push_back(v[c.draw(v.size())]); break;
    case 1: v[c.draw(v.size())] = -c.integer(1, 100); break;
    case 2: v[c.draw(v.size())] = s.n + c.integer(0, 100); break;
    default: v.pop_back();
  }
  return v;
}

void AddOne(Case& c, conex::Program* p, State* s, const std::vector<int>* on) {
  auto vars = on ? *on : Vars(c, *s);
  Entry e;
  e.vars = int(vars.size());
  bool fails = false;
  int what = c.integer(0, 9);
  int before = p->NumberOfConstraints();
  if (s->costs && c.chance(1, 3)) {
    Cost q;
    q.vars = vars;
    q.Q = gen::PositiveDefinite(c, int(vars.size()));
    if (c.chance(1, 4)) q.Q.setZero();
    c.log() << "cost " << gen::Str(q.Q) << " on " << gen::Str(vars) << "\n";
    fails = p->AddQuadraticCost(q.Q, q.vars);
    e.cost = true;
    e.dual = 0;
    e.n = e.vars;
  } else if (what == 0 && (!s->tame || (e.vars > 1 && c.chance(1, 3)))) {
    Con k = Fill(c, *s, cones::kLinear, vars);
    int rows = s->tame ? 1 : c.chance(7, 8) ? std::min(e.vars, k.m.n) : k.m.n;
    if (k.m.n > rows) {
      k.m.n = rows;
      for (auto& a : k.A) a.conservativeResize(rows);
      k.c.conservativeResize(rows);
    }
    k.special = kEquality;
    k.c.setZero();
    for (int i = 0; i < e.vars; i++) k.c += s->y0(vars[i]) * k.A[i];
    c.log() << Str(k) << "\n";
    if (c.boolean()) {
      fails = Add(p, k);
    } else {
      conex::EqualityConstraints q(k.Matrix(), MatrixXd(k.c));
      fails = p->AddConstraint(q, vars);
    }
    e.dual = 0;
  } else if (what == 1) {
    bool lower = c.boolean();
    VectorXd x(e.vars);
    for (int i = 0; i < e.vars; i++)
      x(i) = s->y0(vars[i]) + (lower ? -1 : 1) * c.real(.1, 2);
    c.log() << (lower ? "lower" : "upper") << " bounds on " << gen::Str(vars)
            << "\n";
    fails = lower ? p->AddConstraint(conex::LowerBound(x), vars)
                  : p->AddConstraint(conex::UpperBound(x), vars);
    e.dual = e.vars;
  } else {
    std::vector<int> kinds{cones::kLinear,  cones::kSoc,     cones::kQuad,
                           cones::kQuadMetric, cones::kDense, cones::kReal,
                           cones::kComplex, cones::kQuaternion,
                           cones::kOctonion};
    Con k = Fill(c, *s, s->cones ? c.pick(kinds) : int(cones::kLinear), vars);
    if (c.chance(1, 6)) {
      for (int v : c.permutation(s->n))
        if (std::find(vars.begin(), vars.end(), v) == vars.end() && c.boolean())
          k.more.push_back(v);
      e.vars += int(k.more.size());
    }
    c.log() << Str(k) << "\n";
    fails = Add(p, k);
    VectorXd x = Interior(c, k.m, .1, 3);
    for (size_t i = 0; i < vars.size(); i++)
      s->b(vars[i]) += k.m.Inner(k.A[i], x);
    e.n = k.m.n;
    e.d = k.m.d;
    if (k.m.kind == cones::kLinear) e.dual = k.m.n;
    if (k.m.Matrixial() && k.m.kind != cones::kOctonion)
      e.dual = k.m.n * k.m.n;
  }
  c.require(!fails, "a valid constraint is rejected");
  c.require(p->NumberOfConstraints() == before + 1, "number of constraints");
  s->entries.push_back(e);
}

void AddBad(Case& c, conex::Program* p, State* s) {
  auto vars = BadVars(c, *s);
  Con k;
  k.vars = vars;
  k.m = ModelOf(c, c.pick(std::vector<int>{cones::kLinear, cones::kSoc,
                                           cones::kDense, cones::kReal}));
  // One column too many if a variable is missing.
  int cols = int(vars.size());
  bool unique = true;
  for (size_t i = 0; i < vars.size(); i++) {
    unique &= vars[i] >= 0 && vars[i] < s->n;
    for (size_t j = 0; j < i; j++) unique &= vars[i] != vars[j];
  }
  if (unique) cols++;
  for (int i = 0; i < cols; i++) k.A.push_back(gen::Vector(c, k.m.dim()));
  k.c = k.m.Identity();
  int before = p->NumberOfConstraints();
  if (c.chance(1, 6)) {
    MatrixXd q = gen::PositiveDefinite(c, cols);
    c.log() << "bad cost " << gen::Str(q) << " on " << gen::Str(vars) << "\n";
    c.require(p->AddQuadraticCost(q, vars), "a bad cost is accepted");
    c.require(p->NumberOfConstraints() == before, "a bad cost is counted");
    return;
  }
  if (k.m.kind == cones::kLinear && c.boolean()) k.special = kEquality;
  c.log() << "bad " << Str(k) << "\n";
  c.require(Add(p, k), "a bad constraint is accepted");
  c.require(p->NumberOfConstraints() == before, "a bad constraint is counted");
}

void Update(Case& c, conex::Program* p, const State& s) {
  auto index = [&](int n) {
    return c.chance(1, 4) ? c.pick(std::vector<int>{n, -1, n + 50, -(1 << 20)})
                          : (n > 0 ? int(c.draw(n)) : 0);
  };
  int id = index(int(s.entries.size()));
  Entry e;
  if (id >= 0 && id < int(s.entries.size())) e = s.entries[id];
  double v = c.real(-1, 1);
  int var = index(e.vars), r = index(e.n + 1), k = index(c.boolean() ? 1 : e.n),
      d = index(c.boolean() ? 1 : e.d);
  bool affine = c.boolean();
  bool fails =
      affine ? p->UpdateAffineTermOfConstraint(id, v, r, k, d)
             : p->UpdateLinearOperatorOfConstraint(id, v, var, r, k, d);
  c.log() << "update " << (affine ? "affine term" : "linear operator") << " of "
          << id << " var " << var << " (" << r << "," << k << "," << d << ") "
          << (fails ? "fails" : "succeeds") << "\n";
}

void Query(Case& c, conex::Program* p, const State& s) {
  c.log() << "dual variables\n";
  for (size_t i = 0; i < s.entries.size(); i++) {
    int size = p->GetDualVariableSize(int(i));
    if (s.entries[i].dual >= 0)
      c.require(size == s.entries[i].dual || size == 0,  // Not yet solved.
                "size of a dual variable");
    c.log() << " " << size;
    c.require(size >= 0 && size < 1000, "size of a dual variable");
    // Exactly as large as announced, on the heap.
    MatrixXd x = MatrixXd::Zero(size, 1);
    Eigen::Map<MatrixXd> view(x.data(), size, 1);
    p->GetDualVariable(int(i), &view);
  }
  if (p->stats)
    c.require(p->stats->num_iter >= 0, "negative number of iterations");
}

void SolveOnce(Case& c, conex::Program* p, const State& s) {
  Spec spec;
  spec.n = s.n;
  auto f = RandomConfig(c, spec);
  f.inv_sqrt_mu_max = c.pick(std::vector<double>{1000, 10, 1e6});
  f.max_iterations = c.pick(std::vector<int>{25, 1, 0, 3, 60, 120});
  f.final_centering_steps = c.pick(std::vector<int>{5, 0, 100});
  f.enable_line_search = s.costs || c.chance(1, 4);
  if (s.costs) f.enable_rescaling = 0;
  f.prepare_dual_variables = c.boolean();
  f.initialization_mode = c.chance(1, 3);
  f.warmstart_abort_threshold = c.pick(std::vector<double>{2, 0, 1e9});
  f.dinf_upper_bound = c.pick(std::vector<double>{1, .1, 10});
  f.maximum_mu = c.pick(std::vector<double>{1e4, 1, 1e10});
  f.minimum_mu = c.pick(std::vector<double>{1e-15, 0});
  std::vector<double> y(s.n, -1);  // Exactly n.
  bool ret;
  if (c.chance(2, 3)) {
    VectorXd b = s.b;
    if (!s.tame || c.chance(1, 4))
      b = gen::Vector(c, s.n) *
          c.pick(std::vector<double>{1, 0, 1e-6, 1e6, 1e150});
    ret = conex::Solve(MatrixXd(b), *p, f, y.data());
  } else {
    ret = conex::Solve(*p, f, y.data());
  }
  auto st = p->Status();
  c.log() << "solve " << (f.initialization_mode ? "warm " : "")
          << "duals=" << f.prepare_dual_variables << " " << Str(f)
          << "returned " << ret << " after " << st.num_iterations << "\n";
  c.label(ret ? "solved" : "not solved");
  c.require(ret == st.solved, "return value differs from the status");
  c.require(st.num_iterations >= 0 && st.num_iterations <= f.max_iterations,
            "iteration limit exceeded");
}

void Run(Case& c, State s) {
  s.y0 = gen::Vector(c, s.n);
  s.b = VectorXd::Zero(s.n);
  s.tame = c.boolean();
  c.log() << "variables: " << s.n << "\n";
  VectorXd workspace;
  std::unique_ptr<conex::Program> p;
  if (c.chance(1, 4)) {
    workspace = VectorXd::Constant(
        c.pick(std::vector<int>{0, 1, 200, 20000}),
        c.pick(std::vector<double>{0, std::numeric_limits<double>::quiet_NaN(),
                                   1e300}));
    c.log() << "workspace of size " << workspace.size() << "\n";
    p = std::make_unique<conex::Program>(s.n, &workspace);
  } else {
    p = std::make_unique<conex::Program>(s.n);
  }
  srand(int(c.draw(1000)));
  if (c.chance(1, 4)) Query(c, p.get(), s);
  for (auto& k : s.sets) AddOne(c, p.get(), &s, &k);
  int n = c.integer(1, 8), solves = 0;
  for (int i = 0; i < n; i++) {
    switch (c.integer(0, 9)) {
      case 0:
        AddOne(c, p.get(), &s, nullptr);
        break;
      case 1:
        AddBad(c, p.get(), &s);
        break;
      case 2:
      case 3:
        Update(c, p.get(), s);
        break;
      case 4:
        p->AddLinearCost(gen::Vector(c, s.n));
        c.log() << "linear cost\n";
        break;
      case 5:
        Query(c, p.get(), s);
        break;
      case 6:
        if (s.entries.empty()) break;
        conex::GetFeasibleObjective(p.get());
        c.log() << "feasible objective\n";
        break;
      default:
        SolveOnce(c, p.get(), s);
        solves++;
    }
  }
  SolveOnce(c, p.get(), s);
  Query(c, p.get(), s);
  if (solves > 0) c.nontrivial();
}

void Small(Case& c) {
  State s;
  std::string kind;
  s.sets = gen::CliqueSet(c, 5, 4, &s.n, &kind);
  Run(c, s);
}
void Large(Case& c) {
  State s;
  std::string kind;
  s.sets = gen::CliqueSet(c, 25, 20, &s.n, &kind);
  Run(c, s);
}
void Quadratic(Case& c) {
  State s;
  std::string kind;
  s.sets = gen::CliqueSet(c, 8, 6, &s.n, &kind);
  s.costs = true;
  s.cones = c.chance(1, 4);
  Run(c, s);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C29";
  p.rule =
      "Random histories of adding constraints of every kind (feasible, "
      "infeasible, degenerate and badly scaled data), bad constraints, valid "
      "and invalid updates, costs, cold and warm solves under extreme options, "
      "feasible-objective and dual queries, under address and "
      "undefined-behaviour sanitizers. Non-trivial: at least two solves.";
  p.tests = {{"small", 2000, 60000, Small},
             {"large", 400, 12000, Large},
             {"quadratic", 1500, 40000, Quadratic}};
  return pbt::Main(argc, argv, p);
}
