// C02: well-posed programs are solved to their known optimum.
#include "prog.h"

using namespace prog;

namespace {

conex::SolverConfiguration Moderate(Case& c, const Spec& s, double mu) {
  conex::SolverConfiguration f;
  f.prepare_dual_variables = c.boolean();
  f.inv_sqrt_mu_max = 1 / std::sqrt(mu);
  f.divergence_upper_bound = c.pick(std::vector<double>{1, .5, 5});
  f.final_centering_tolerance = c.pick(std::vector<double>{.01, .001, 1e-4});
  f.final_centering_steps = c.pick(std::vector<int>{15, 25});
  f.max_iterations = c.pick(std::vector<int>{100, 150});
  f.kkt_solver = int(c.draw(3));
  f.iterative_refinement_iterations = c.chance(1, 3) ? c.integer(1, 3) : 0;
  f.enable_rescaling = !c.chance(1, 3);
  f.enable_line_search = s.LinearOnly() && c.chance(1, 3);
  f.initial_centering_steps_coldstart = c.chance(1, 4) ? c.integer(1, 4) : 0;
  return f;
}

void Solved(Case& c, const Result& r) {
  c.require(r.solved, "a well-posed program is not reported solved");
  c.require(r.returned, "solved, but the call returned failure");
  c.require(!r.primal_infeasible && !r.dual_infeasible,
            "solved with an infeasibility flag");
  c.require(r.y.allFinite(), "the point is not finite");
}

// Steps towards the target are chosen from eigenvalue estimates for matrix
// cones of order above one or two; when these were too optimistic, more
// centering has to make up for it.
Result SolveOnce(Case& c, const Spec& s, conex::SolverConfiguration& cfg) {
  Result r = Solve(s, cfg);
  c.log() << Str(r);
  bool estimated = false;
  for (auto& k : s.cons)
    estimated |= k.m.Matrixial() && k.m.n > (k.m.kind == cones::kDense ? 1 : 2);
  if (!r.solved && estimated) {
    c.label("second attempt");
    cfg.final_centering_steps = 100;
    cfg.max_iterations = 300;
    r = Solve(s, cfg);
    c.log() << Str(r);
  }
  return r;
}

// The point returned for a barrier target is the central point of the target.
void Central(Case& c) {
  srand(int(c.draw(1000)));
  Options o;
  o.max_vars = 7;
  o.max_cons = 5;
  double mu = c.pick(std::vector<double>{1e-1, 1, 1e-2});
  if (c.chance(1, 3))  // Only cones whose step norms are exact.
    o.kinds = {cones::kLinear, cones::kSoc, cones::kQuad, cones::kQuadMetric};
  Planted p = Feasible(c, o, mu);
  // The objective has to pin the point, or the path towards it comes from far
  // away.
  MatrixXd active = MatrixXd::Zero(p.s.n, p.s.n);
  for (size_t i = 0; i < p.s.cons.size(); i++) {
    const Con& k = p.s.cons[i];
    VectorXd h = k.m.Fn(p.s0[i], [&](double v) { return std::sqrt(mu / v); });
    MatrixXd part(k.c.size(), k.vars.size());
    for (size_t j = 0; j < k.vars.size(); j++) part.col(j) = k.m.Q(h, k.A[j]);
    for (size_t j = 0; j < k.vars.size(); j++)
      for (size_t l = 0; l < k.vars.size(); l++)
        active(k.vars[j], k.vars[l]) += k.m.Inner(part.col(j), part.col(l));
  }
  if (gen::Eigenvalues(active).minCoeff() < .03) c.discard();
  auto cfg = Moderate(c, p.s, mu);
  cfg.final_centering_tolerance = c.pick(std::vector<double>{1e-3, 1e-4, 1e-5});
  c.log() << Str(p.s) << Str(cfg) << "central point "
          << gen::Str(MatrixXd(p.y0.transpose())) << "\n";
  Result r = SolveOnce(c, p.s, cfg);
  if (p.s.cons.size() > 1) c.nontrivial();
  Solved(c, r);
  c.small(r.mu / mu - 1, 1e-9, "barrier parameter reached");
  // Distance in the local norm at the central point.
  double d2 = 0;
  int rank = p.s.rank();
  for (size_t i = 0; i < p.s.cons.size(); i++) {
    const Con& k = p.s.cons[i];
    VectorXd h = k.m.Fn(p.s0[i], [](double v) { return 1 / std::sqrt(v); });
    VectorXd e = k.m.Q(h, VectorXd(k.Slack(r.y) - p.s0[i]));
    d2 += k.m.Inner(e, e);
  }
  double d = std::sqrt(std::fabs(d2));
  // A step of norm d leaves the returned point at a distance of d^2; the norm
  // of hermitian matrix cones is a random estimate from below, that of dense
  // ones is exact up to a factor of sqrt(n).
  bool estimated = false;
  for (auto& k : p.s.cons)
    estimated |= k.m.Matrixial() && k.m.kind != cones::kDense && k.m.n > 1;
  double t = cfg.final_centering_tolerance;
  double tol = estimated ? .05 + 1000 * t : 1e-5 + 100 * t * t * rank;
  if (Exhausted(cfg, r)) {
    c.label("centering exhausted");
    return;
  }
  c.at_most(d, tol, "distance to the central point");
  c.small(p.s.b.dot(r.y - p.y0),
          mu * std::sqrt(double(rank)) * tol * 1.1 +
              1e-9 * (1 + p.s.b.norm()) * (1 + r.y.norm()),
          "objective at the central point");
}

struct Optimum {
  Spec s;
  VectorXd y;
  double value = 0;
  double lambda = 1e300;  // Smallest positive eigenvalue of the dual solution.
  MatrixXd rigid;         // The part of the constraints that pins the point.
};

// Complementary (s, x) per constraint, with interior points on both sides.
Optimum Complementary(Case& c, const Options& o) {
  Optimum t;
  t.s = Structure(c, o);
  Spec& s = t.s;
  t.y = gen::Vector(c, s.n);
  VectorXd v(s.n);
  for (int i = 0; i < s.n; i++) v(i) = c.real(.5, 1.5) * (c.boolean() ? 1 : -1);
  s.b = VectorXd::Zero(s.n);
  int K = int(s.cons.size()), rows = 0;
  std::vector<VectorXd> ss(K), xs(K), s0(K), x0(K), w(K), eN(K);
  double num = 0, den = 0;
  for (int q = 0; q < K; q++) {
    Con& k = s.cons[q];
    VectorXd z = Interior(c, k.m, .4, 2);
    // Signs of the spectrum.
    double cut = c.pick(std::vector<double>{1.2193, .8371, 1.6137, 0, 3}),
           push = .4;
    auto pos = [&](double x) { return x > cut ? x - cut + push : 0; };
    auto neg = [&](double x) { return x > cut ? 0 : cut - x + push; };
    ss[q] = k.m.Fn(z, pos);
    xs[q] = k.m.Fn(z, neg);
    eN[q] = k.m.Fn(z, [&](double x) { return x > cut ? 1. : 0.; });
    VectorXd ev = k.m.Eigenvalues(z);
    for (int i = 0; i < ev.size(); i++)
      if (ev(i) <= cut) t.lambda = std::min(t.lambda, neg(ev(i)));
    s0[q] = Interior(c, k.m, .5, 2);
    x0[q] = Interior(c, k.m, .5, 2);
    double top = k.m.Eigenvalues(ss[q]).maxCoeff();
    s0[q] *= (1 + top) / k.m.Eigenvalues(s0[q]).minCoeff();
    num += k.m.Inner(s0[q], xs[q]);
    den += k.m.Inner(VectorXd(s0[q] - ss[q]), x0[q]);
  }
  if (t.lambda > 1e100) return t;
  // Interior points exist when A v = ss - s0 and A'(x0 - xs) = 0, which needs
  // <s0 - ss, x0 - xs> = 0.
  int unknowns = 0;
  for (int q = 0; q < K; q++) {
    x0[q] *= num / den;
    w[q] = x0[q] - xs[q];
    Con& k = s.cons[q];
    int nv = int(k.vars.size()), j = c.integer(0, nv - 1);
    VectorXd rest = ss[q] - s0[q];
    for (int i = 0; i < nv; i++)
      if (i != j) rest -= v(k.vars[i]) * k.A[i];
    k.A[j] = rest / v(k.vars[j]);
    unknowns += nv;
  }
  // Correction w_q g_q' with g_q orthogonal to v.
  MatrixXd L = MatrixXd::Zero(s.n + K, unknowns);
  VectorXd rhs = VectorXd::Zero(s.n + K);
  int col = 0;
  for (int q = 0; q < K; q++) {
    Con& k = s.cons[q];
    for (size_t i = 0; i < k.vars.size(); i++, col++) {
      L(k.vars[i], col) = k.m.Inner(w[q], w[q]);
      L(s.n + q, col) = v(k.vars[i]);
      rhs(k.vars[i]) -= k.m.Inner(k.A[i], w[q]);
    }
  }
  Eigen::CompleteOrthogonalDecomposition<MatrixXd> lsq(L);
  lsq.setThreshold(1e-9);
  VectorXd g = lsq.solve(rhs);
  if ((L * g - rhs).norm() > 1e-9 || g.norm() > 50) c.discard();
  std::vector<MatrixXd> parts;
  col = 0;
  for (int q = 0; q < K; q++) {
    Con& k = s.cons[q];
    int nv = int(k.vars.size());
    for (int i = 0; i < nv; i++) k.A[i] += g(col++) * w[q];
    k.c = ss[q];
    for (int i = 0; i < nv; i++) {
      k.c += t.y(k.vars[i]) * k.A[i];
      s.b(k.vars[i]) += k.m.Inner(k.A[i], xs[q]);
    }
    // A minus its part in the face of ss.
    MatrixXd part = MatrixXd::Zero(k.c.size(), s.n);
    for (int i = 0; i < nv; i++)
      part.col(k.vars[i]) = k.A[i] - k.m.Q(eN[q], k.A[i]);
    parts.push_back(part);
    rows += int(part.rows());
  }
  t.rigid.resize(rows, s.n);
  int at = 0;
  for (auto& q : parts) {
    t.rigid.middleRows(at, q.rows()) = q;
    at += int(q.rows());
  }
  t.value = s.b.dot(t.y);
  return t;
}

void KnownOptimum(Case& c) {
  srand(int(c.draw(1000)));
  Options o;
  o.bounds = false;
  o.max_vars = 5;
  Optimum t = Complementary(c, o);
  if (t.lambda > 1e100) return;  // No active constraint; zero objective.
  // Badly determined programs are not well-posed.
  if (gen::Eigenvalues(t.s.Gram()).minCoeff() < .05) c.discard();
  double mu = c.pick(std::vector<double>{1e-4, 1e-6, 1e-2});
  auto cfg = Moderate(c, t.s, mu);
  c.log() << Str(t.s) << Str(cfg) << "optimal point "
          << gen::Str(MatrixXd(t.y.transpose())) << " value " << t.value
          << "\n";
  Result r = SolveOnce(c, t.s, cfg);
  c.nontrivial();
  Solved(c, r);
  double gap = mu * t.s.rank();
  double round = 1e-8 * (1 + t.s.b.norm()) * (1 + r.y.norm() + t.y.norm());
  double value = t.s.b.dot(r.y);
  c.at_most(value, t.value + round, "value exceeds the optimal value");
  c.at_least(value,
             t.value -
                 gap * (1 + 2 * t.s.rank() * cfg.final_centering_tolerance) -
                 round,
             "value is further from the optimum than the barrier allows");
  // Distance when the optimal point is unique and rigid.
  Eigen::JacobiSVD<MatrixXd> svd(t.rigid);
  double sigma = svd.singularValues().minCoeff();
  if (t.rigid.rows() < t.s.n || sigma < .05) return;
  c.label("unique optimum");
  double big = 0;
  for (auto& k : t.s.cons) big += k.m.Norm(k.Slack(r.y));
  double eps = (1.5 * gap + round) / t.lambda;
  c.at_most((r.y - t.y).norm(),
            4 * (eps + std::sqrt(eps * (big + eps))) / sigma,
            "distance to the unique optimal point");
}

// Linear programs with a unique vertex: distance proportional to the target.
void Vertex(Case& c) {
  int n = c.integer(1, 6), m = n + c.integer(1, 6);
  MatrixXd B = gen::Matrix(c, n, n);
  for (int i = 0; i < n; i++) B(i, i) += 1.5;
  Eigen::JacobiSVD<MatrixXd> svd(B);
  double sigma = svd.singularValues().minCoeff();
  if (sigma < .1) c.discard();
  VectorXd y = gen::Vector(c, n), x(n);
  MatrixXd A(m, n);
  VectorXd cc(m);
  A.topRows(n) = B;
  A.bottomRows(m - n) = gen::Matrix(c, m - n, n);
  for (int i = 0; i < n; i++) x(i) = c.real(.3, 2);
  cc = A * y;
  for (int i = n; i < m; i++) cc(i) += c.real(.3, 2);
  Spec s;
  s.n = n;
  auto perm = c.permutation(m);
  int at = 0;
  while (at < m) {  // Rows in any order, in several constraints.
    int r = c.integer(1, m - at);
    Con k;
    k.m.kind = cones::kLinear;
    k.m.n = r;
    k.m.M = MatrixXd::Identity(r, r);
    k.vars = c.permutation(n);
    MatrixXd a(r, n);
    k.c.resize(r);
    for (int i = 0; i < r; i++) {
      for (int j = 0; j < n; j++) a(i, j) = A(perm[at + i], k.vars[j]);
      k.c(i) = cc(perm[at + i]);
    }
    k.SetMatrix(a);
    s.cons.push_back(k);
    at += r;
  }
  s.b = B.transpose() * x;
  double mu = c.pick(std::vector<double>{1e-2, 1e-4, 1e-6, 1e-8});
  auto cfg = Moderate(c, s, mu);
  c.log() << Str(s) << Str(cfg) << "vertex "
          << gen::Str(MatrixXd(y.transpose())) << "\n";
  Result r = Solve(s, cfg);
  c.log() << Str(r);
  if (n > 1) c.nontrivial();
  Solved(c, r);
  double gap = 1.1 * mu * m;
  double round = 1e-8 * (1 + s.b.norm()) * (1 + r.y.norm() + y.norm());
  c.at_most(s.b.dot(r.y), s.b.dot(y) + round, "value exceeds the optimum");
  c.at_least(s.b.dot(r.y), s.b.dot(y) - gap - round, "value at the vertex");
  c.at_most((r.y - y).norm(),
            (gap + round) / x.minCoeff() / sigma * std::sqrt(double(n)),
            "distance to the vertex");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C02";
  p.rule =
      "central: random programs over every cone whose central point for the "
      "requested barrier target is planted. optimum: programs with a planted "
      "complementary pair (faces of every dimension, in every cone) and "
      "interior points on both sides. vertex: linear programs with a unique "
      "nondegenerate vertex, rows spread over several constraints. "
      "Non-trivial: several constraints; an active constraint; more than one "
      "variable.";
  p.tests = {{"central", 40000, 600000, Central},
             {"optimum", 40000, 600000, KnownOptimum},
             {"vertex", 20000, 300000, Vertex}};
  return pbt::Main(argc, argv, p);
}
