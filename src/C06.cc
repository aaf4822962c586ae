// C06: equality constraints hold and equal elimination.
#include "prog.h"

using namespace prog;

namespace {

// A point on the equalities and a basis of their null space.
void Nullspace(const Spec& s, VectorXd* at, MatrixXd* N) {
  int r = 0;
  for (auto& k : s.cons)
    if (k.Equality()) r += k.m.n;
  MatrixXd E = MatrixXd::Zero(r, s.n);
  VectorXd f(r);
  r = 0;
  for (auto& k : s.cons) {
    if (!k.Equality()) continue;
    for (size_t j = 0; j < k.vars.size(); j++)
      E.block(r, k.vars[j], k.m.n, 1) = k.A[j];
    f.segment(r, k.m.n) = k.c;
    r += k.m.n;
  }
  Eigen::JacobiSVD<MatrixXd> svd(E, Eigen::ComputeFullV | Eigen::ComputeFullU);
  *at = svd.solve(f);
  *N = svd.matrixV().rightCols(s.n - r);
}

// The program in the remaining degrees of freedom: y = at + N z.
Spec Eliminate(Case& c, const Spec& s, const VectorXd& at, const MatrixXd& N) {
  Spec t;
  t.n = int(N.cols());
  t.b = N.transpose() * s.b;
  for (auto& k : s.cons) {
    if (k.Equality()) continue;
    Con q = k;
    q.special = kPlain;
    q.c = k.Slack(at);
    q.vars.clear();
    for (int i = 0; i < t.n; i++) q.vars.push_back(i);
    q.A.assign(t.n, VectorXd::Zero(k.m.dim()));
    for (int i = 0; i < t.n; i++)
      for (size_t j = 0; j < k.vars.size(); j++)
        q.A[i] += N(k.vars[j], i) * k.A[j];
    t.cons.push_back(q);
  }
  return t;
}

// The same equalities in other groups, over other variable lists, in a mixed
// order among the constraints, with rows recombined.
Spec Regroup(Case& c, const Spec& s) {
  struct Row {
    VectorXd a;
    std::vector<int> vars;
    double f;
  };
  std::vector<Row> rows;
  Spec t = s;
  t.cons.clear();
  for (auto& k : s.cons) {
    if (!k.Equality()) {
      t.cons.push_back(k);
      continue;
    }
    for (int i = 0; i < k.m.n; i++) {
      Row r;
      r.vars = k.vars;
      r.a.resize(k.vars.size());
      for (size_t j = 0; j < k.vars.size(); j++) r.a(j) = k.A[j](i);
      r.f = k.c(i);
      rows.push_back(r);
    }
  }
  auto order = c.permutation(int(rows.size()));
  size_t at = 0;
  while (at < order.size()) {
    int r = c.integer(1, int(order.size() - at));
    std::vector<int> vars;
    for (int i = 0; i < r; i++)
      for (int v : rows[order[at + i]].vars)
        if (std::find(vars.begin(), vars.end(), v) == vars.end())
          vars.push_back(v);
    auto p = c.permutation(int(vars.size()));
    std::vector<int> shuffled;
    for (int i : p) shuffled.push_back(vars[i]);
    Con k;
    k.special = kEquality;
    k.vars = shuffled;
    k.m.kind = cones::kLinear;
    k.m.n = r;
    k.m.M = MatrixXd::Identity(r, r);
    MatrixXd a = MatrixXd::Zero(r, vars.size());
    k.c.resize(r);
    for (int i = 0; i < r; i++) {
      const Row& row = rows[order[at + i]];
      for (size_t j = 0; j < row.vars.size(); j++) {
        int col = int(std::find(shuffled.begin(), shuffled.end(), row.vars[j]) -
                      shuffled.begin());
        a(i, col) = row.a(j);
      }
      k.c(i) = row.f;
      if (c.chance(1, 4)) {  // A multiple of the row.
        double g = c.pick(std::vector<double>{-1, 2, .5});
        a.row(i) *= g;
        k.c(i) *= g;
      }
    }
    k.SetMatrix(a);
    t.cons.insert(t.cons.begin() + c.integer(0, int(t.cons.size())), k);
    at += r;
  }
  return t;
}

double Residual(const Spec& s, const VectorXd& y) {
  double worst = 0;
  for (auto& k : s.cons)
    if (k.Equality())
      worst = std::max(worst, gen::MaxAbs(k.Slack(y)) /
                                  (k.Scale() * (1 + y.norm())));
  return worst;
}

void Run(Case& c, const Options& o, bool matrices) {
  double central = c.pick(std::vector<double>{.3, 1, .1});
  Planted p = Feasible(c, o, central);
  Spec& s = p.s;
  if (!s.HasEqualities()) c.discard();
  VectorXd at;
  MatrixXd N;
  Nullspace(s, &at, &N);
  conex::SolverConfiguration cfg;
  cfg.inv_sqrt_mu_max = 1 / std::sqrt(central);
  cfg.final_centering_tolerance = matrices ? 1e-4 : .01;
  cfg.final_centering_steps = 50;
  cfg.max_iterations = 200;
  cfg.enable_rescaling = 0;
  cfg.kkt_solver = int(c.draw(3));
  cfg.iterative_refinement_iterations = c.integer(0, 3);
  cfg.enable_line_search = s.LinearOnly() && c.chance(1, 3);
  Spec t = Eliminate(c, s, at, N);
  Spec u = Regroup(c, s);
  c.log() << Str(s) << Str(cfg) << "eliminated: " << Str(t)
          << "regrouped: " << Str(u);
  Result a = Solve(s, cfg);
  c.log() << Str(a);
  Result e = Solve(t, cfg);
  Result r = Solve(u, cfg);
  c.log() << Str(e) << Str(r);
  bool exhausted = matrices && (Exhausted(cfg, a) || Exhausted(cfg, e) ||
                                Exhausted(cfg, r));
  if (a.solved) c.small(Residual(s, a.y), 1e-6, "residual of the equalities");
  if (r.solved)
    c.small(Residual(u, r.y), 1e-6, "residual of the regrouped equalities");
  if (exhausted) {
    c.label("centering ran out");
    return;
  }
  c.nontrivial();
  c.require(a.solved, "the program is not solved");
  c.require(e.solved, "the program without equalities is not solved");
  c.require(r.solved, "the program with regrouped equalities is not solved");
  double scale = 1 + p.y0.norm();
  double tol = matrices ? 3e-3 : 1e-3;
  c.small((a.y - p.y0).norm(), tol * scale, "distance from the central point");
  c.small((at + N * e.y - p.y0).norm(), tol * scale,
          "distance from the central point after elimination");
  c.small((r.y - p.y0).norm(), tol * scale,
          "distance from the central point after regrouping");
}

void Vectors(Case& c) {
  Options o;
  o.equalities = true;
  o.equality_rows = c.boolean() ? 3 : 7;
  o.max_vars = 8;
  o.kinds = {cones::kLinear, cones::kLinear, cones::kSoc, cones::kQuad,
             cones::kQuadMetric};
  Run(c, o, false);
}
void Matrices(Case& c) {
  Options o;
  o.equalities = true;
  o.equality_rows = c.boolean() ? 3 : 7;
  o.max_vars = 8;
  Run(c, o, true);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C06";
  p.rule =
      "Random programs with a planted central point and 1-7 independent "
      "equality rows in groups over random variable lists, solved as given, "
      "after elimination by a null-space basis, and with the rows permuted, "
      "rescaled and regrouped. Non-trivial: all three runs ended because "
      "their last step was small.";
  p.assumptions = {"slacks and duals of order .1 to 10 (see DESIGN.md: "
                   "regularised multipliers in badly scaled programs)"};
  p.tests = {{"vectors", 60000, 600000, Vectors},
             {"all", 60000, 600000, Matrices}};
  return pbt::Main(argc, argv, p);
}
