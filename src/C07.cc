// C07: quadratic objectives are minimised.
#include "conex/quadratic_cone_constraint.h"
#include "prog.h"

using namespace prog;

namespace {

struct QP {
  Planted p;
  MatrixXd Q;  // Sum of the costs.
  int rows = 0;
};

MatrixXd Place(const Cost& q, int n) {
  MatrixXd m = MatrixXd::Zero(n, n);
  for (size_t i = 0; i < q.vars.size(); i++)
    for (size_t j = 0; j < q.vars.size(); j++)
      m(q.vars[i], q.vars[j]) += q.Q(i, j);
  return m;
}

MatrixXd Semidefinite(Case& c, int k) {
  MatrixXd r = gen::Matrix(c, c.integer(1, k), k);
  MatrixXd q = r.transpose() * r;
  if (c.chance(1, 3)) q *= c.pick(std::vector<double>{4, .25, 10});
  return q;
}

// Linear inequalities, equalities and costs in which every variable is
// determined, with a strictly feasible primal-dual pair; central > 0: the pair
// is the central point of that barrier parameter.
// tight: some slacks of order central.
QP Random(Case& c, double central, bool inequalities, bool tight = false) {
  QP r;
  Spec& s = r.p.s;
  s.n = c.integer(1, 7);
  if (inequalities) {
    int K = c.integer(1, 4);
    for (int i = 0; i < K; i++)
      s.cons.push_back(RandomCon(c, s.n, cones::kLinear, true));
  }
  int C = c.integer(1, 4);
  for (int i = 0; i < C; i++) {
    Cost q;
    int k = c.integer(1, s.n);
    q.vars = c.subset(s.n, k);
    q.Q = Semidefinite(c, k);
    s.costs.push_back(q);
  }
  r.Q = MatrixXd::Zero(s.n, s.n);
  for (auto& q : s.costs) r.Q += Place(q, s.n);
  if (gen::Eigenvalues(s.Gram() + r.Q).minCoeff() < .05) {
    Cost q;
    q.vars = c.permutation(s.n);
    q.Q = MatrixXd::Identity(s.n, s.n) * c.pick(std::vector<double>{1, .3});
    s.costs.insert(s.costs.begin() + c.integer(0, int(s.costs.size())), q);
    r.Q += Place(q, s.n);
  }
  r.p.y0 = gen::Vector(c, s.n);
  if (c.boolean()) AddEqualities(c, &s, r.p.y0, c.integer(1, 3));
  for (auto& k : s.cons) {
    VectorXd sl = VectorXd::Zero(k.m.dim()), x;
    if (k.Equality()) {
      x = gen::Vector(c, k.m.n);
    } else {
      sl = Interior(c, k.m, .1, 3);
      if (central > 0)
        for (int i = 0; i < sl.size(); i++)
          if (tight && c.boolean()) sl(i) *= std::max(central, .2);
      x = central > 0 ? VectorXd(central * sl.cwiseInverse())
                      : Interior(c, k.m, .1, 3);
      k.c = sl;
      for (size_t j = 0; j < k.vars.size(); j++)
        k.c += r.p.y0(k.vars[j]) * k.A[j];
    }
    r.p.s0.push_back(sl);
    r.p.x0.push_back(x);
  }
  SetObjective(&r.p);
  s.b += r.Q * r.p.y0;
  return r;
}

conex::SolverConfiguration Config(Case& c) {
  conex::SolverConfiguration f;
  f.prepare_dual_variables = 1;
  f.enable_line_search = 1;
  f.enable_rescaling = 0;
  f.inv_sqrt_mu_max = c.pick(std::vector<double>{100, 10, 1000, 1e4});
  f.final_centering_tolerance = c.pick(std::vector<double>{.01, .1, 1});
  f.final_centering_steps = 20;
  f.max_iterations = 500;
  f.kkt_solver = int(c.draw(3));
  f.iterative_refinement_iterations = c.integer(0, 2);
  f.dinf_upper_bound = c.pick(std::vector<double>{1, .9, 1.5});
  return f;
}

// Costs and constraints added in a random order; index of each constraint.
std::vector<int> Build(Case& c, const Spec& s, conex::Program* p) {
  int K = int(s.cons.size()), C = int(s.costs.size());
  std::vector<int> index(K);
  auto order = c.permutation(K + C);
  for (int i = 0; i < K + C; i++) {
    int j = order[i];
    if (j < K) {
      Add(p, s.cons[j]);
      index[j] = i;
    } else {
      const Cost& q = s.costs[j - K];
      if (int(q.vars.size()) == s.n && std::is_sorted(q.vars.begin(),
                                                      q.vars.end()))
        p->AddQuadraticCost(q.Q);
      else
        p->AddQuadraticCost(q.Q, q.vars);
    }
  }
  return index;
}

struct Answer {
  bool solved;
  VectorXd y;
  std::vector<VectorXd> x;
  double mu;
};

Answer Run(Case& c, const Spec& s, const conex::SolverConfiguration& cfg) {
  conex::Program p(s.n);
  auto index = Build(c, s, &p);
  // The linear cost is a sum of pieces.
  Answer a;
  a.y = VectorXd::Constant(s.n, -12345.678);
  bool ret;
  if (c.boolean()) {
    VectorXd part = gen::Vector(c, s.n);
    p.AddLinearCost(part);
    p.AddLinearCost(-s.b - part);
    ret = conex::Solve(p, cfg, a.y.data());
  } else {
    ret = conex::Solve(MatrixXd(s.b), p, cfg, a.y.data());
  }
  a.solved = p.Status().solved;
  c.require(ret == a.solved, "return value differs from the status");
  double k = p.stats->sqrt_inv_mu[p.stats->num_iter - 1];
  a.mu = 1 / (k * k);
  for (size_t i = 0; i < s.cons.size(); i++) {
    MatrixXd x;
    if (!s.cons[i].Equality()) {
      x.resize(s.cons[i].m.n, 1);
      p.GetDualVariable(index[i], &x);
    }
    a.x.push_back(x);
  }
  c.log() << "solved " << a.solved << " flags " << p.Status().primal_infeasible
          << p.Status().dual_infeasible << " iterations "
          << p.Status().num_iterations << " mu " << a.mu << " y "
          << gen::Str(MatrixXd(a.y.transpose())) << "\n";
  return a;
}

double Value(const QP& q, const VectorXd& y) {
  return q.p.s.b.dot(y) - .5 * y.dot(q.Q * y);
}

// Optimality conditions at the answer, over linear constraints.
// tol: size of the last step. The distance to the centre after it is of order
// tol^2, measured in a metric in which the costs are at most one.
void Certify(Case& c, const QP& q, const Answer& a, double tol) {
  const Spec& s = q.p.s;
  double scale = 1 + a.y.norm() + s.b.norm();
  VectorXd r = s.b - q.Q * a.y;
  MatrixXd E(s.n, 0);
  double gap = 0;
  for (size_t i = 0; i < s.cons.size(); i++) {
    const Con& k = s.cons[i];
    VectorXd sl = k.Slack(a.y);
    if (k.Equality()) {
      c.small(gen::MaxAbs(sl), 1e-6 * k.Scale() * scale,
              "residual of an equality");
      for (int row = 0; row < k.m.n; row++) {
        E.conservativeResize(s.n, E.cols() + 1);
        E.col(E.cols() - 1).setZero();
        for (size_t j = 0; j < k.vars.size(); j++)
          E(k.vars[j], E.cols() - 1) = k.A[j](row);
      }
      continue;
    }
    c.at_least(sl.minCoeff(), -1e-8 * k.Scale() * scale, "slack");
    c.at_least(a.x[i].minCoeff(), -1e-8 * scale, "dual variable");
    gap += sl.dot(a.x[i]);
    for (size_t j = 0; j < k.vars.size(); j++)
      r(k.vars[j]) -= k.A[j].dot(a.x[i]);
  }
  // Up to the multipliers of the equalities.
  if (E.cols() > 0) r -= E * E.colPivHouseholderQr().solve(r);
  c.small(r.norm(), 1e-6 * scale * (1 + q.Q.norm()) +
              2 * tol * tol * std::sqrt(a.mu * q.Q.norm() * (1 + s.rank())),
          "gradient of the Lagrangian");
  c.small(gap, 1.01 * s.rank() * a.mu + 1e-7 * scale * scale,
          "complementarity");
}

void Certificate(Case& c) {
  QP q = Random(c, 0, true);
  auto cfg = Config(c);
  c.log() << Str(q.p.s) << Str(cfg);
  Answer a = Run(c, q.p.s, cfg);
  c.require(a.solved, "the program is not solved");
  c.nontrivial();
  Certify(c, q, a, cfg.final_centering_tolerance);
}

void Central(Case& c) {
  double central = c.pick(std::vector<double>{.1, 1, .01, 1e-4});
  auto cfg = Config(c);
  // Starting far from the centre of a badly scaled program stalls the steps.
  cfg.maximum_mu = 100;
  QP q = Random(c, central, true, cfg.kkt_solver != 2);
  cfg.inv_sqrt_mu_max = 1 / std::sqrt(central);
  cfg.final_centering_tolerance = .01;
  c.log() << Str(q.p.s) << Str(cfg);
  Answer a = Run(c, q.p.s, cfg);
  c.require(a.solved, "the program is not solved");
  c.nontrivial();
  Certify(c, q, a, cfg.final_centering_tolerance);
  if (a.mu > 1.001 * central) {
    c.label("iterations ran out");
    return;
  }
  c.small((a.y - q.p.y0).norm(), 1e-3 * (1 + q.p.y0.norm()),
          "distance from the central point");
}

// Equalities only: the exact minimiser.
void Exact(Case& c) {
  QP q = Random(c, 0, false);
  auto cfg = Config(c);
  c.log() << Str(q.p.s) << Str(cfg);
  Answer a = Run(c, q.p.s, cfg);
  c.require(a.solved, "the program is not solved");
  if (q.p.s.costs.size() > 1) c.nontrivial();
  Certify(c, q, a, cfg.final_centering_tolerance);
  c.small((a.y - q.p.y0).norm(), 1e-6 * (1 + q.p.y0.norm()) * (1 + q.Q.norm()),
          "distance from the minimiser");
}

// Costs stated as other sums.
void Pieces(Case& c) {
  QP q = Random(c, 0, true);
  Spec t = q.p.s;
  t.costs.clear();
  std::vector<Cost> todo = q.p.s.costs;
  for (auto& k : todo) {
    std::vector<Cost> parts{k};
    if (c.boolean()) {  // A sum of semidefinite pieces.
      Cost k2 = k;
      Eigen::SelfAdjointEigenSolver<MatrixXd> es(k.Q);
      VectorXd ev = es.eigenvalues().cwiseMax(0), part = ev;
      for (int i = 0; i < part.size(); i++) part(i) *= c.real(0, 1);
      k2.Q = es.eigenvectors() * part.asDiagonal() *
             es.eigenvectors().transpose();
      parts[0].Q -= k2.Q;
      parts.push_back(k2);
      c.label("split");
    }
    for (auto& p : parts) {
      if (c.boolean()) {  // On more variables, in another order.
        Cost w;
        w.vars = c.permutation(t.n);
        MatrixXd full = Place(p, t.n);
        w.Q = MatrixXd(t.n, t.n);
        for (int i = 0; i < t.n; i++)
          for (int j = 0; j < t.n; j++) w.Q(i, j) = full(w.vars[i], w.vars[j]);
        p = w;
        c.label("embedded");
      }
      t.costs.push_back(p);
    }
  }
  auto cfg = Config(c);
  cfg.final_centering_tolerance = .01;
  c.log() << Str(q.p.s) << Str(cfg) << "stated as " << Str(t);
  Answer a = Run(c, q.p.s, cfg), b = Run(c, t, cfg);
  c.require(a.solved && b.solved, "the program is not solved");
  c.nontrivial();
  c.small((a.y - b.y).norm(), 1e-4 * (1 + a.y.norm()),
          "solution with another sum of costs");
}

// Costs moved into epigraph variables with a linear cost.
void Epigraph(Case& c) {
  QP q = Random(c, 0, true);
  const Spec& s = q.p.s;
  auto cfg = Config(c);
  cfg.inv_sqrt_mu_max = c.pick(std::vector<double>{30, 100, 300});
  c.log() << Str(s) << Str(cfg);
  Answer a = Run(c, s, cfg);
  c.require(a.solved, "the program is not solved");
  int form = int(c.draw(3));
  std::vector<Cost> costs = s.costs;
  if (form == 2) {  // A single epigraph variable.
    Cost all;
    for (int i = 0; i < s.n; i++) all.vars.push_back(i);
    all.Q = q.Q;
    costs = {all};
    c.label("one epigraph");
  }
  // The metric of an epigraph cone has to be definite.
  for (auto& k : costs)
    if (gen::Eigenvalues(k.Q).minCoeff() < .02) c.discard();
  int N = s.n + int(costs.size());
  conex::Program p(N);
  VectorXd cost = VectorXd::Zero(N);
  cost.head(s.n) = -s.b;
  for (size_t i = 0; i < costs.size(); i++) {
    int t = s.n + int(i);
    cost(t) = 1;
    if (form == 1) {
      auto vars = costs[i].vars;
      vars.push_back(t);
      p.AddConstraint(conex::QuadraticEpigraph(costs[i].Q), vars);
      c.label("dedicated cone");
    } else {
      AddQuadraticCostEpigraph(&p, costs[i].Q, costs[i].vars, t);
    }
  }
  for (auto& k : s.cons) Add(&p, k);
  conex::SolverConfiguration e;
  e.inv_sqrt_mu_max = cfg.inv_sqrt_mu_max;
  e.final_centering_steps = 25;
  e.max_iterations = 200;
  e.kkt_solver = cfg.kkt_solver;
  e.iterative_refinement_iterations = 1;
  e.enable_rescaling = c.boolean();
  VectorXd y = VectorXd::Zero(N);
  p.AddLinearCost(cost);
  bool solved = conex::Solve(p, e, y.data());
  c.log() << "epigraph form " << form << " solved " << solved << " y "
          << gen::Str(MatrixXd(y.transpose())) << "\n";
  c.require(solved, "the epigraph program is not solved");
  c.nontrivial();
  double scale = 1 + a.y.norm() + y.norm();
  double mu = a.mu + 1 / (e.inv_sqrt_mu_max * e.inv_sqrt_mu_max);
  double tol = 1.2 * mu * (s.rank() + 2 * costs.size()) +
               1e-6 * scale * scale * (1 + q.Q.norm() + s.b.norm());
  c.small(Value(q, a.y) - Value(q, y.head(s.n)), tol,
          "objective of the epigraph program");
  double t = 0;
  for (size_t i = 0; i < costs.size(); i++) t += y(s.n + i);
  double half = .5 * y.head(s.n).dot(q.Q * y.head(s.n));
  c.at_least(t - half, -1e-7 * scale * scale, "epigraph");
  c.small(t - half, tol, "epigraph variable above the cost");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C07";
  p.rule =
      "Random convex quadratic programs: sums of semidefinite costs on random "
      "variable subsets (possibly singular), linear costs, inequalities, "
      "bounds and equalities, planted with a strictly feasible primal-dual "
      "pair; added in random order. Non-trivial: solved and compared with "
      "the optimality conditions, a planted point or another statement.";
  p.tests = {{"certificate", 40000, 500000, Certificate},
             {"central", 40000, 500000, Central},
             {"exact", 20000, 300000, Exact},
             {"pieces", 30000, 300000, Pieces},
             {"epigraph", 30000, 300000, Epigraph}};
  return pbt::Main(argc, argv, p);
}
