// C04: the answer does not depend on how a program is laid out.
#include "prog.h"

using namespace prog;

namespace {

struct Variant {
  Spec s;
  std::vector<int> rename;  // Variable v of the original is rename[v].
  // Original constraint -> (constraint, first row) of its parts, with the rows
  // of the original in each part.
  std::vector<std::vector<std::pair<int, std::vector<int>>>> parts;
};

Con Row(const Con& k, const std::vector<int>& rows) {
  Con q = k;
  q.m.n = int(rows.size());
  q.m.M = MatrixXd::Identity(q.m.n, q.m.n);
  q.c.resize(q.m.n);
  for (size_t i = 0; i < rows.size(); i++) q.c(i) = k.c(rows[i]);
  for (size_t j = 0; j < k.A.size(); j++) {
    q.A[j].resize(q.m.n);
    for (size_t i = 0; i < rows.size(); i++) q.A[j](i) = k.A[j](rows[i]);
  }
  return q;
}

Variant Shuffle(Case& c, const Spec& s) {
  Variant t;
  t.s.n = s.n;
  t.rename = c.permutation(s.n);
  t.s.b.resize(s.n);
  for (int i = 0; i < s.n; i++) t.s.b(t.rename[i]) = s.b(i);
  struct Piece {
    Con k;
    int from;
    std::vector<int> rows;
  };
  std::vector<Piece> list;
  for (size_t i = 0; i < s.cons.size(); i++) {
    const Con& k = s.cons[i];
    if (k.m.kind == cones::kLinear && k.special == kPlain && k.m.n > 1 &&
        c.boolean()) {
      // Rows split into parts, in any order.
      auto perm = c.permutation(k.m.n);
      int at = 0;
      while (at < k.m.n) {
        int r = c.integer(1, k.m.n - at);
        std::vector<int> rows(perm.begin() + at, perm.begin() + at + r);
        list.push_back({Row(k, rows), int(i), rows});
        at += r;
      }
      c.label("split");
    } else {
      list.push_back({k, int(i), {}});
    }
  }
  for (auto& p : list) {
    Con& k = p.k;
    for (auto& v : k.vars) v = t.rename[v];
    if (k.special == kLowerBound || k.special == kUpperBound) continue;
    // Any order, and some more variables with zero coefficients.
    if (c.boolean()) {
      std::vector<int> absent;
      for (int v = 0; v < s.n; v++)
        if (std::find(k.vars.begin(), k.vars.end(), v) == k.vars.end())
          absent.push_back(v);
      for (int v : absent)
        if (c.chance(1, 3)) {
          k.vars.push_back(v);
          k.A.push_back(VectorXd::Zero(k.m.dim()));
          c.label("zero columns");
        }
    }
    auto order = c.permutation(int(k.vars.size()));
    Con q = k;
    for (size_t j = 0; j < order.size(); j++) {
      q.vars[j] = k.vars[order[j]];
      q.A[j] = k.A[order[j]];
    }
    if (c.chance(1, 4)) {
      // Variables without columns.
      for (int v : c.permutation(s.n))
        if (std::find(q.vars.begin(), q.vars.end(), v) == q.vars.end() &&
            c.boolean())
          q.more.push_back(v);
      if (!q.more.empty()) c.label("missing columns");
    }
    k = q;
  }
  auto order = c.permutation(int(list.size()));
  t.parts.resize(s.cons.size());
  for (size_t j = 0; j < order.size(); j++) {
    auto& p = list[order[j]];
    t.s.cons.push_back(p.k);
    t.parts[p.from].push_back({int(j), p.rows});
  }
  return t;
}

// Structured overlap patterns.
Spec Pattern(Case& c, const Options& o) {
  Spec s;
  int shape = int(c.draw(4));
  if (shape == 0) return Structure(c, o);
  int m = c.integer(2, 6);
  s.n = 0;
  std::vector<std::vector<int>> sets;
  if (shape == 1) {  // Cycle: not chordal.
    s.n = m = m + 1;
    for (int i = 0; i < m; i++) sets.push_back({i, (i + 1) % m});
    c.label("cycle");
  } else if (shape == 2) {  // Star or chain.
    s.n = m + 1;
    bool star = c.boolean();
    for (int i = 0; i < m; i++) sets.push_back({star ? 0 : i, i + 1});
    c.label("tree");
  } else {  // Disconnected groups.
    for (int i = 0; i < m; i++) {
      int k = c.integer(1, 2);
      std::vector<int> v;
      for (int j = 0; j < k; j++) v.push_back(s.n++);
      sets.push_back(v);
    }
    c.label("disconnected");
  }
  s.b = VectorXd::Zero(s.n);
  for (auto& v : sets) {
    Con k = RandomCon(c, s.n, c.pick(o.kinds), o.bounds);
    if (k.special != kPlain || int(k.vars.size()) < int(v.size())) {
      k.special = kPlain;
      k.m.kind = cones::kLinear;
      k.m.d = 1;
      k.m.n = int(v.size()) + 1;
      k.m.M = MatrixXd::Identity(k.m.n, k.m.n);
      k.SetMatrix(gen::Matrix(c, k.m.n, int(v.size())));
    }
    k.A.resize(v.size());
    k.vars = v;
    k.c = VectorXd::Zero(k.m.dim());
    s.cons.push_back(k);
  }
  // Rows of their own where a variable is not determined.
  MatrixXd G = s.Gram();
  if (gen::Eigenvalues(G).minCoeff() < .05)
    for (auto& v : sets) {
      Con k;
      k.m.kind = cones::kLinear;
      k.m.n = int(v.size());
      k.m.M = MatrixXd::Identity(k.m.n, k.m.n);
      k.vars = v;
      k.SetMatrix(MatrixXd::Identity(k.m.n, k.m.n));
      k.c = VectorXd::Zero(k.m.n);
      s.cons.push_back(k);
    }
  return s;
}

void Compare(Case& c, const Options& o, bool random) {
  Planted p;
  p.s = Pattern(c, o);
  p.y0 = gen::Vector(c, p.s.n);
  if (o.equalities) AddEqualities(c, &p.s, p.y0, c.integer(1, 3));
  for (auto& k : p.s.cons) {
    VectorXd s = VectorXd::Zero(k.m.dim()), x;
    if (k.Equality()) {
      x = gen::Vector(c, k.m.n);
    } else {
      s = Interior(c, k.m, .3, 3);
      x = Interior(c, k.m, .3, 3);
      k.c = s;
      for (size_t j = 0; j < k.vars.size(); j++)
        k.c += p.y0(k.vars[j]) * k.A[j];
    }
    p.x0.push_back(x);
  }
  SetObjective(&p);
  conex::SolverConfiguration cfg;
  cfg.prepare_dual_variables = 1;
  cfg.inv_sqrt_mu_max = c.pick(std::vector<double>{30, 10, 100, 300});
  cfg.final_centering_tolerance = random ? 1e-4 : .01;
  cfg.final_centering_steps = 25;
  cfg.max_iterations = 150;
  cfg.kkt_solver = int(c.draw(3));
  cfg.iterative_refinement_iterations = o.equalities ? 3 : c.integer(0, 2);
  cfg.enable_rescaling = !c.chance(1, 3);
  cfg.enable_line_search = p.s.LinearOnly() && c.chance(1, 3);
  Variant t = Shuffle(c, p.s);
  int seed = int(c.draw(1000));
  c.log() << Str(p.s) << Str(cfg) << "laid out as " << Str(t.s);
  srand(seed);
  Result a = Solve(p.s, cfg);
  srand(seed);
  Result b = Solve(t.s, cfg);
  c.log() << Str(a) << Str(b);
  if (t.s.cons.size() > 1 && p.s.n > 1) c.nontrivial();
  c.require(a.solved == b.solved, "the status depends on the layout");
  if (!a.solved) {
    c.label("not solved");
    return;
  }
  double tol = random ? 1e-3 : o.equalities ? 1e-4 : 3e-6;
  double worst = 0;
  for (int v = 0; v < p.s.n; v++)
    worst = std::max(worst, std::fabs(a.y(v) - b.y(t.rename[v])));
  c.small(worst, tol * (1 + a.y.norm()), "solution in another layout");
  for (size_t i = 0; i < p.s.cons.size(); i++) {
    const Con& k = p.s.cons[i];
    if (k.Equality() || k.m.Vectorial()) continue;
    const MatrixXd& d = a.duals[i];
    MatrixXd e = d;
    for (auto& q : t.parts[i]) {
      if (q.second.empty()) {
        e = b.duals[q.first];
      } else {
        for (size_t r = 0; r < q.second.size(); r++)
          e(q.second[r], 0) = b.duals[q.first](r, 0);
      }
    }
    c.small(gen::Diff(d, e), 10 * tol * (1 + d.norm()),
            "dual variable in another layout");
  }
}

void Exact(Case& c) {
  Options o;
  o.kinds = {cones::kLinear, cones::kLinear,     cones::kSoc,
             cones::kQuad,   cones::kQuadMetric, cones::kDense};
  Compare(c, o, false);
}
void Matrices(Case& c) {
  Options o;
  o.kinds = {cones::kLinear, cones::kDense, cones::kReal, cones::kComplex,
             cones::kQuaternion};
  Compare(c, o, true);
}
void Equalities(Case& c) {
  Options o;
  o.kinds = {cones::kLinear, cones::kLinear, cones::kSoc, cones::kDense};
  o.equalities = true;
  Compare(c, o, false);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C04";
  p.rule =
      "Random well-posed programs on arbitrary, cyclic, tree-like and "
      "disconnected variable patterns, solved as given and after renaming "
      "variables, reordering and splitting constraints, permuting the "
      "variables of constraints and adding zero columns. Non-trivial: more "
      "than one variable and more than one constraint.";
  p.tests = {{"exact", 60000, 600000, Exact},
             {"matrices", 40000, 400000, Matrices},
             {"equalities", 50000, 500000, Equalities}};
  return pbt::Main(argc, argv, p);
}
