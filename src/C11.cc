// C11: coefficient-by-coefficient construction equals direct construction.
#include "compare.h"

using namespace prog;

namespace {

struct Entry {
  int con, pos, r, c, dim;  // pos < 0: affine term.
  double val;
};
std::string Str(const Entry& e) {
  std::ostringstream o;
  o << (e.pos < 0 ? "affine" : "linear") << " of " << e.con << " var " << e.pos
    << " (" << e.r << "," << e.c << "," << e.dim << ")=" << e.val;
  return o.str();
}

bool Updatable(const Con& k) {
  if (k.special != kPlain) return false;
  return k.m.kind == cones::kLinear || k.m.kind == cones::kSoc ||
         k.m.kind >= cones::kReal;
}

template <typename T>
bool AddEmptyHermitian(conex::Program* p, const Con& k, const Con* junk) {
  if (!junk)
    return p->AddConstraint(conex::HermitianPsdConstraint<T>(k.m.n), k.vars);
  return AddHermitian<T>(p, *junk);
}

// Without data, or with the data of `junk`.
void AddEmpty(conex::Program* p, const Con& k, const Con* junk) {
  if (junk && k.m.Vectorial()) {
    Add(p, *junk);
    return;
  }
  switch (k.m.kind) {
    case cones::kLinear: {
      MatrixXd a = MatrixXd::Zero(k.m.n, k.vars.size());
      MatrixXd b = MatrixXd::Zero(k.m.n, 1);
      if (junk) {
        a = junk->Matrix();
        b = junk->c;
      }
      p->AddConstraint(conex::LinearConstraint(a, b), k.vars);
      return;
    }
    case cones::kSoc:
      p->AddConstraint(conex::SOCConstraint(k.m.n), k.vars);
      return;
    case cones::kReal: AddEmptyHermitian<conex::Real>(p, k, junk); return;
    case cones::kComplex: AddEmptyHermitian<conex::Complex>(p, k, junk); return;
    case cones::kQuaternion:
      AddEmptyHermitian<conex::Quaternions>(p, k, junk);
      return;
    default: AddEmptyHermitian<conex::Octonions>(p, k, junk);
  }
}

// The entries that make up one column or the affine term.
void Entries(Case& c, const Con& k, const VectorXd& x, const VectorXd& initial,
             int con, int pos, std::vector<Entry>* out) {
  bool all = c.boolean();
  if (!k.m.Matrixial()) {
    for (int r = 0; r < x.size(); r++)
      if (all || x(r) != initial(r)) out->push_back({con, pos, r, 0, 0, x(r)});
    return;
  }
  hc::HC h = k.m.Mat(x), h0 = k.m.Mat(initial);
  for (int d = 0; d < k.m.d; d++)
    for (int i = 0; i < k.m.n; i++)
      for (int j = 0; j <= i; j++) {
        if (i == j && d > 0) continue;
        if (!all && h.m[d](i, j) == h0.m[d](i, j)) continue;
        if (c.boolean())
          out->push_back({con, pos, i, j, d, h.m[d](i, j)});
        else
          out->push_back({con, pos, j, i, d, h.m[d](j, i)});
      }
}

bool SameEntry(const Entry& a, const Entry& b) {
  return a.con == b.con && a.pos == b.pos && a.dim == b.dim &&
         ((a.r == b.r && a.c == b.c) || (a.r == b.c && a.c == b.r));
}

bool Apply(conex::Program* p, const Entry& e) {
  return e.pos < 0 ? p->UpdateAffineTermOfConstraint(e.con, e.val, e.r, e.c,
                                                     e.dim)
                   : p->UpdateLinearOperatorOfConstraint(e.con, e.val, e.pos,
                                                         e.r, e.c, e.dim);
}

int Beyond(Case& c, int limit) {
  switch (c.integer(0, 3)) {
    case 0: return limit;
    case 1: return -1;
    case 2: return limit + c.integer(1, 40);
    default: return -c.integer(2, 1000);
  }
}

// An update that names nothing.
Entry Invalid(Case& c, const Spec& s) {
  int total = int(s.cons.size());
  Entry e;
  e.con = c.integer(0, total - 1);
  e.val = c.real(.1, 2);
  const Con& k = s.cons[e.con];
  int rows = k.m.Matrixial() ? k.m.n : int(k.c.size());
  int cols = k.m.Matrixial() ? k.m.n : 1;
  bool linear = c.boolean();
  e.pos = linear ? c.integer(0, int(k.vars.size()) - 1) : -1;
  e.r = c.integer(0, rows - 1);
  e.c = c.integer(0, cols - 1);
  e.dim = 0;
  if (!Updatable(k)) return e;
  switch (c.integer(0, linear ? 5 : 4)) {
    case 0: e.r = Beyond(c, rows); break;
    case 1: e.c = Beyond(c, cols); break;
    case 2: e.dim = Beyond(c, k.m.Matrixial() ? k.m.d : 1); break;
    case 3: e.con = Beyond(c, total + int(s.costs.size())); break;
    case 4:
      if (k.m.Matrixial() && k.m.d > 1) {
        e.c = e.r;
        e.dim = c.integer(1, k.m.d - 1);
      } else {
        e.r = Beyond(c, rows);
      }
      break;
    default:
      e.pos = Beyond(c, int(k.vars.size()));
      if (e.pos < 0) e.pos = 1000;  // Negative stands for the affine term.
  }
  return e;
}

void Run(Case& c, const Options& o, bool costs) {
  Planted planted = Feasible(c, o);
  Spec& s = planted.s;
  // Data that are absent from the end, or everywhere.
  Spec whole = s;
  for (auto& k : s.cons) {
    if (k.special != kPlain) continue;
    if (c.chance(1, 6))
      for (size_t j = c.integer(0, int(k.A.size())); j < k.A.size(); j++)
        k.A[j].setZero();
    if (c.chance(1, 10)) k.c.setZero();
  }
  if (gen::Eigenvalues(s.Gram()).minCoeff() < .02) s = whole;
  if (costs) {
    int n = c.integer(1, 2);
    for (int i = 0; i < n; i++) {
      Cost q;
      q.vars = c.subset(s.n, c.integer(1, s.n));
      q.Q = gen::PositiveDefinite(c, int(q.vars.size()));
      s.costs.push_back(q);
    }
  }
  c.log() << prog::Str(s);
  auto f = RandomConfig(c, s);
  f.max_iterations = c.pick(std::vector<int>{40, 15, 60});
  f.final_centering_steps = 10;
  if (costs) {
    f.enable_line_search = 1;
    f.enable_rescaling = 0;
  }

  conex::Program p(s.n);
  std::vector<Entry> todo;
  std::vector<bool> filled;
  for (size_t i = 0; i < s.cons.size(); i++) {
    const Con& k = s.cons[i];
    filled.push_back(Updatable(k) && !c.chance(1, 5));
    if (!filled.back()) {
      Add(&p, k);
      continue;
    }
    Con junk = k;
    for (auto& a : junk.A) a.setZero();
    junk.c.setZero();
    bool full = c.chance(1, 3);
    if (full) {
      for (auto& a : junk.A) a = gen::Vector(c, int(a.size()));
      junk.c = gen::Vector(c, int(junk.c.size()));
      c.log() << "created full: " << i << "\n";
    }
    AddEmpty(&p, k, full ? &junk : nullptr);
    for (size_t j = 0; j < k.A.size(); j++)
      Entries(c, k, k.A[j], junk.A[j], int(i), int(j), &todo);
    Entries(c, k, k.c, junk.c, int(i), -1, &todo);
  }
  for (size_t i = 0; i < s.costs.size(); i++) {
    const Cost& q = s.costs[i];
    int n = int(q.vars.size());
    p.AddQuadraticCost(MatrixXd(MatrixXd::Zero(n, n)), q.vars);
    for (int r = 0; r < n; r++)
      for (int k = 0; k < n; k++)
        todo.push_back({int(s.cons.size() + i), -1, r, k, 0, q.Q(r, k)});
  }
  size_t distinct = todo.size();
  if (distinct > 0) c.nontrivial();
  // Entries written more than once, in any order; the last value counts.
  int extra = distinct ? c.integer(0, 8) : 0;
  for (int i = 0; i < extra; i++) {
    Entry e = todo[c.draw(distinct)];
    bool cost = e.con >= int(s.cons.size());
    if (!cost && s.cons[e.con].m.Matrixial() && c.boolean()) {
      std::swap(e.r, e.c);
      if (e.dim > 0) e.val = -e.val;
    }
    todo.push_back(e);
    c.label("overwritten");
  }
  std::vector<int> order = c.permutation(int(todo.size()));
  std::vector<Entry> ops;
  for (int i : order) ops.push_back(todo[i]);
  for (size_t i = 0; i < ops.size(); i++) {
    bool last = true;
    for (size_t j = i + 1; j < ops.size(); j++) {
      bool cost = ops[i].con >= int(s.cons.size());
      last &= cost ? !(ops[j].con == ops[i].con && ops[j].r == ops[i].r &&
                       ops[j].c == ops[i].c)
                   : !SameEntry(ops[i], ops[j]);
    }
    if (!last) ops[i].val = c.chance(1, 3) ? 0 : c.real(-3, 3);
  }
  int invalid = c.integer(0, 6);
  std::vector<int> at, solve_at;
  for (int i = 0; i < invalid; i++) at.push_back(c.integer(0, int(ops.size())));
  int solves = c.chance(1, 3) ? c.integer(1, 2) : 0;
  for (int i = 0; i < solves; i++)
    solve_at.push_back(c.integer(0, int(ops.size())));
  for (size_t i = 0; i <= ops.size(); i++) {
    for (int v : at) {
      if (v != int(i)) continue;
      Entry e;
      if (!s.costs.empty() && c.chance(1, 3)) {
        int w = c.integer(0, int(s.costs.size()) - 1);
        int n = int(s.costs[w].vars.size());
        e = {int(s.cons.size()) + w, -1, c.integer(0, n - 1),
             c.integer(0, n - 1), 0, 1};
        switch (c.integer(0, 3)) {
          case 0: e.r = Beyond(c, n); break;
          case 1: e.c = Beyond(c, n); break;
          case 2: e.dim = Beyond(c, 1); break;
          default: e.pos = 0;
        }
      } else {
        e = Invalid(c, s);
      }
      c.log() << "invalid " << Str(e) << "\n";
      c.label("invalid update");
      c.require(Apply(&p, e) == CONEX_FAILURE,
                "an update of an entry that does not exist is accepted");
    }
    for (int v : solve_at) {
      if (v != int(i)) continue;
      c.log() << "solve\n";
      c.label("solved in between");
      prog::Solve(s, &p, f);
    }
    if (i == ops.size()) break;
    c.log() << Str(ops[i]) << "\n";
    c.require(Apply(&p, ops[i]) == CONEX_SUCCESS,
              "an update of an entry that exists is rejected");
  }
  int seed = int(c.draw(1000));
  srand(seed);
  Result a = prog::Solve(s, &p, f);
  srand(seed);
  Result b = prog::Solve(s, f);
  c.log() << prog::Str(f) << prog::Str(a) << prog::Str(b);
  c.label(b.solved ? "solved" : "not solved");
  Compare(c, a, b, "how the constraints were filled");
}

void Conic(Case& c) {
  Options o;
  o.max_vars = 4;
  o.max_cons = 3;
  o.equalities = c.chance(1, 4);
  o.kinds = {cones::kLinear,  cones::kSoc,        cones::kReal,
             cones::kComplex, cones::kQuaternion, cones::kDense,
             cones::kQuad};
  if (c.chance(1, 5)) o.kinds = {cones::kOctonion, cones::kLinear};
  Run(c, o, false);
}
void Quadratic(Case& c) {
  Options o;
  o.max_vars = 4;
  o.max_cons = 3;
  o.equalities = c.chance(1, 4);
  o.kinds = {cones::kLinear};
  Run(c, o, true);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C11";
  p.rule =
      "Random programs whose constraints are created empty (or full of other "
      "data) and filled entry by entry in random order, with overwritten "
      "entries, invalid updates and solves in between, against direct "
      "construction. Non-trivial: at least one entry is written.";
  p.tests = {{"conic", 6000, 100000, Conic},
             {"quadratic", 3000, 50000, Quadratic}};
  return pbt::Main(argc, argv, p);
}
