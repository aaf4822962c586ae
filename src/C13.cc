// C13: the C interface rejects bad arguments and keeps the program intact.
#include "capi.h"

using namespace capi;

namespace {

int Beyond(Case& c, int limit) {
  switch (c.integer(0, 4)) {
    case 0: return limit;
    case 1: return -1;
    case 2: return limit + c.integer(1, 40);
    case 3: return -c.integer(2, 1000);
    default: return c.boolean() ? 1 << 30 : -(1 << 30);
  }
}

struct State {
  void* p;
  Script done;  // Accepted so far.
  int count = 0;
  bool solved = false;
};

void Fails(Case& c, int status, const std::string& what) {
  c.log() << "bad " << what << "\n";
  c.require(status == CONEX_FAILURE, "a bad call succeeds: " + what);
}

// The constraint with this identifier, or null.
const Step* Find(const Script& s, int id) {
  for (auto& t : s.steps) {
    if (id < t.entries) return &t;
    id -= t.entries;
  }
  return nullptr;
}

void BadUpdate(Case& c, State* s) {
  int id = c.integer(0, s->count - 1);
  const Step* t = Find(s->done, id);
  Fill f{id, 0, 0, 0, 0, 1.5};
  bool affine = c.boolean();
  f.var = affine ? -1 : c.integer(0, s->done.n - 1);
  if (t->kind == kCost) {
    int n = s->done.n;
    int r = c.integer(0, n - 1), k = c.integer(0, n - 1);
    (c.boolean() ? r : k) = Beyond(c, n);
    Fails(c, CONEX_UpdateQuadraticCostMatrix(s->p, id, 1.5, r, k),
          "entry of a cost");
    return;
  }
  if (t->kind == kRows) {
    f.r = Beyond(c, 2 * int(t->rows.rows()));
    Fails(c, Apply(s->p, f), "row of two-sided rows");
    return;
  }
  const Con& k = t->k;
  int rows = k.m.Matrixial() ? k.m.n : int(k.c.size());
  int cols = k.m.Matrixial() ? k.m.n : 1;
  f.r = c.integer(0, rows - 1);
  f.c = c.integer(0, cols - 1);
  if (k.m.kind == cones::kDense) {
    Fails(c, Apply(s->p, f), "update of a dense inequality");
    return;
  }
  std::string what = "entry of " + std::string(cones::Name(k.m.kind));
  switch (c.integer(0, affine ? 3 : 4)) {
    case 0: f.r = Beyond(c, rows); what += " row"; break;
    case 1: f.c = Beyond(c, cols); what += " column"; break;
    case 2:
      f.d = Beyond(c, k.m.Matrixial() ? k.m.d : 1);
      what += " dimension";
      break;
    case 3: f.id = Beyond(c, s->count); what += " identifier"; break;
    default:
      f.var = Beyond(c, s->done.n);
      if (f.var < 0) {
        Fails(c,
              CONEX_UpdateLinearOperator(s->p, id, 1.5, f.var, f.r, f.c, f.d),
              what + " negative variable");
        return;
      }
      what += " variable";
  }
  Fails(c, Apply(s->p, f), what);
}

void Bad(Case& c, State* s) {
  int id = 12345, n = s->done.n;
  CONEX_SolverConfiguration g;
  CONEX_SetDefaultOptions(&g);
  if (s->count > 0 && c.boolean()) {
    BadUpdate(c, s);
    return;
  }
  switch (c.integer(0, 15)) {
    case 0:
      Fails(c, CONEX_SetNumberOfVariables(s->p, c.integer(-3, 9)),
            "number of variables");
      break;
    case 1: {
      int d = c.pick(std::vector<int>{1, 2, 4, 8});
      Fails(c, CONEX_NewLinearMatrixInequality(s->p, -c.integer(0, 5), d, &id),
            "order of a matrix inequality");
      break;
    }
    case 2: {
      int d = c.pick(std::vector<int>{3, 0, -1, 5, 16, 7, 6});
      Fails(c, CONEX_NewLinearMatrixInequality(s->p, c.integer(1, 4), d, &id),
            "dimension of a matrix inequality");
      break;
    }
    case 3:
      Fails(c, CONEX_NewLinearMatrixInequality(s->p, c.integer(4, 7), 8, &id),
            "order of octonions");
      break;
    case 4:
      Fails(c, CONEX_NewLorentzConeConstraint(s->p, -c.integer(0, 5), &id),
            "order of a Lorentz cone");
      break;
    case 5:
      Fails(c, CONEX_NewLinearInequality(s->p, -c.integer(0, 5), &id),
            "number of rows");
      break;
    case 6:
      Fails(c, CONEX_NewLinearMatrixInequality(s->p, 2, 2, nullptr), "null");
      Fails(c, CONEX_NewLorentzConeConstraint(s->p, 2, nullptr), "null");
      Fails(c, CONEX_NewLinearInequality(s->p, 2, nullptr), "null");
      Fails(c, CONEX_NewQuadraticCost(s->p, nullptr), "null");
      break;
    case 7:
      Fails(c, CONEX_NewLinearMatrixInequality(nullptr, 2, 2, &id), "program");
      Fails(c, CONEX_NewLorentzConeConstraint(nullptr, 2, &id), "program");
      Fails(c, CONEX_NewLinearInequality(nullptr, 2, &id), "program");
      Fails(c, CONEX_NewQuadraticCost(nullptr, &id), "program");
      Fails(c, CONEX_SetNumberOfVariables(nullptr, 2), "program");
      Fails(c, CONEX_UpdateAffineTerm(nullptr, 0, 1, 0, 0, 0), "program");
      Fails(c, CONEX_UpdateLinearOperator(nullptr, 0, 1, 0, 0, 0, 0),
            "program");
      Fails(c, CONEX_UpdateQuadraticCostMatrix(nullptr, 0, 1, 0, 0),
            "program");
      break;
    case 8: {
      int m = c.integer(1, 3), k = c.integer(1, n);
      std::vector<int> v = c.subset(n, k);
      std::vector<long> vars(v.begin(), v.end());
      switch (c.integer(0, 1)) {
        case 0: vars[c.draw(k)] = Beyond(c, n); break;
        default: vars.push_back(vars[c.draw(k)]);
      }
      k = int(vars.size());
      std::vector<double> a(m * m * k, 1), cc(m * m, 1);
      c.log() << "bad sparse inequality on " << gen::Str(v) << "\n";
      int r = CONEX_AddSparseLMIConstraint(s->p, a.data(), m, m, k, cc.data(),
                                           m, m, vars.data(), k);
      c.require(r < 0, "a sparse inequality on bad variables gets an identifier");
      break;
    }
    case 9: {
      int m = c.integer(1, 3), k = n + c.integer(1, 3);
      std::vector<double> a(m * m * k, 1), cc(m * m, 1);
      c.log() << "bad dense inequality\n";
      int r = CONEX_AddDenseLMIConstraint(s->p, a.data(), m, m, k, cc.data(), m,
                                          m);
      c.require(r < 0, "a matrix inequality on too many variables is accepted");
      break;
    }
    case 10: {
      int m = c.integer(1, 3), k = n + c.integer(1, 3);
      std::vector<double> a(m * k, 1), cc(m, 1);
      c.log() << "bad linear inequality\n";
      int r = CONEX_AddDenseLinearConstraint(s->p, a.data(), m, k, cc.data(),
                                             m);
      c.require(r < 0, "a linear inequality on too many variables is accepted");
      break;
    }
    case 11: {
      int k = n + c.integer(1, 3);
      MatrixXd q = MatrixXd::Identity(k, k);
      Fails(c, CONEX_AddQuadraticCost(s->p, q.data(), k, k), "size of a cost");
      break;
    }
    case 12: {
      double x[3] = {9, 9, 9};
      CONEX_GetDualVariable(s->p, Beyond(c, s->count), x, 3, 1);
      CONEX_GetDualVariableSize(s->p, Beyond(c, s->count));
      c.require(x[0] == 9 && x[1] == 9 && x[2] == 9,
                "dual variable of an invalid constraint");
      break;
    }
    case 13: {
      CONEX_IterationStats st = {-5, -5};
      int i = s->solved ? c.integer(5000, 1 << 30) * (c.boolean() ? 1 : -1)
                        : c.integer(-2, 2);
      c.log() << "bad statistics " << i << "\n";
      CONEX_GetIterationStats(s->p, &st, i);
      c.require(st.mu == -5 && st.iteration_number == -5,
                "statistics of an iteration that was not performed");
      CONEX_GetIterationStats(s->p, nullptr, 0);
      CONEX_GetIterationStats(nullptr, &st, 0);
      CONEX_SetDefaultOptions(nullptr);
      break;
    }
    case 14: {
      int k = n + c.pick(std::vector<int>{1, -1, 3});
      VectorXd b = VectorXd::Ones(std::max(k, 1)), y = VectorXd::Zero(n);
      c.log() << "bad objective\n";
      c.require(!CONEX_Maximize(s->p, b.data(), k, &g, y.data(), n),
                "an objective of the wrong size is solved");
      break;
    }
    default: {
      if (n < 2) break;
      VectorXd b = VectorXd::Ones(n), y = VectorXd::Zero(n - 1);
      c.log() << "short solution\n";
      c.require(!CONEX_Maximize(s->p, b.data(), n, &g, y.data(), n - 1) &&
                    !CONEX_Solve(s->p, &g, y.data(), n - 1),
                "a solution is written to a short vector");
    }
  }
}

// Whether every direction of y is seen by some step.
bool Covered(const Script& s) {
  MatrixXd g = MatrixXd::Zero(s.n, s.n);
  for (auto& t : s.steps) {
    if (t.kind == kCon) {
      for (size_t i = 0; i < t.k.vars.size(); i++)
        for (size_t j = 0; j < t.k.vars.size(); j++)
          g(t.k.vars[i], t.k.vars[j]) += t.k.A[i].dot(t.k.A[j]);
    } else {
      MatrixXd a = t.kind == kRows ? t.rows : t.Q;
      g += a.transpose() * a;
    }
  }
  VectorXd e = Eigen::SelfAdjointEigenSolver<MatrixXd>(g).eigenvalues();
  return e(0) > 1e-6 * e(s.n - 1);
}

void Run(Case& c, bool costs) {
  Script s = RandomScript(c, costs);
  Handle h;
  State st;
  st.p = h.p;
  st.done.n = s.n;
  st.done.costs = s.costs;
  int id;
  if (c.chance(1, 3)) {
    Fails(c, CONEX_SetNumberOfVariables(h.p, -c.integer(0, 3)),
          "number of variables");
    Fails(c, CONEX_NewLinearMatrixInequality(h.p, 0, 2, &id), "order");
  }
  Ok(c, CONEX_SetNumberOfVariables(h.p, s.n), "SetNumberOfVariables");
  auto bad = [&]() {
    int k = c.integer(0, 3);
    if (k) c.nontrivial();
    for (int i = 0; i < k; i++) Bad(c, &st);
  };
  VectorXd objective = VectorXd::Zero(s.n);
  auto solve = [&]() {
    if (!Covered(st.done)) return;
    conex::Program q(s.n);
    for (auto& t : st.done.steps) capi::Apply(&q, t);
    auto f = AnyConfig(c, st.done);
    bool maximize = c.chance(2, 3);
    if (maximize) objective = s.b;
    else q.AddLinearCost(-objective);
    c.label(st.solved ? "solved again" : "first solve");
    CompareSolves(c, h.p, &q, st.done, maximize ? &s.b : nullptr, f,
                  int(c.draw(1000)), "earlier calls");
    st.solved = true;
  };
  bool has_costs = false;
  for (auto& t : s.steps) {
    bad();
    c.log() << capi::Str(t) << "\n";
    capi::Apply(c, h.p, t, s.n, st.count);
    st.count += t.entries;
    st.done.steps.push_back(t);
    has_costs |= t.kind == kCost;
    st.done.costs = has_costs;
    if (c.chance(1, 4)) solve();
  }
  bad();
  solve();
  if (c.chance(1, 3)) {
    bad();
    solve();
  }
}

void Conic(Case& c) { Run(c, false); }
void Quadratic(Case& c) { Run(c, true); }
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C13";
  p.rule =
      "Random sequences of valid building calls, bad calls of every kind and "
      "solves through the C interface; statuses and identifiers against a "
      "model, each solve against a fresh C++ program of what was accepted. "
      "Run with address and undefined-behaviour sanitizers. Non-trivial: at "
      "least one bad call.";
  p.tests = {{"conic", 6000, 100000, Conic},
             {"quadratic", 3000, 50000, Quadratic}};
  return pbt::Main(argc, argv, p);
}
