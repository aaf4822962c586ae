// C20: the block each cone contributes to the Newton system.
#include "cones.h"

using namespace cones;

namespace {

// One round: steer the real constraint by one full or partial step.
void Advance(Case& c, Rig& r, double k) {
  const auto& m = r.m;
  static const std::vector<double> radius{.01, .5, 1.4, 3};
  double rad = c.pick(radius);
  VectorXd d = m.Random(c, -rad, rad);
  VectorXd wmh = m.Fn(r.w, [](double v) { return 1 / std::sqrt(v); });
  VectorXd minus_s = m.Q(wmh, VectorXd(d - m.Identity()));
  VectorXd y = r.Solve(c, minus_s, k);
  conex::StepOptions o;
  o.affine = false;
  o.c_weight = k;
  o.e_weight = 1;
  conex::StepInfo info;
  r.p->Prepare(o, r.Y(y), &info);
  o.step_size = 1;
  double ninf = m.Eigenvalues(d).cwiseAbs().maxCoeff();
  if (ninf * ninf > 2) o.step_size = 2 / (ninf * ninf);
  if (m.kind == kOctonion) o.step_size = 1;
  r.p->Take(o);
}

void Compare(Case& c, Rig& r, const Sys& got, const Sys* before, double f) {
  const auto& m = r.m;
  int V = r.vars();
  double wn = m.Norm(r.w), cn = 1 + m.Norm(r.c);
  double tol = 1e-11 * (1 + wn) * (1 + wn) * r.Cond();
  auto base = [&](const conex::SchurComplementSystem& s, int i, int j) {
    return before ? s.G(i, j) : 0;
  };
  VectorXd Qc = m.Q(r.w, r.c);
  for (int j = 0; j < V; j++) {
    VectorXd Qa = m.Q(r.w, r.A[j]);
    for (int i = j; i < V; i++) {
      double want = m.Inner(r.A[i], Qa);
      double b = before ? base(before->s, i, j) : 0;
      double t = tol * (1 + m.Norm(r.A[i])) * (1 + m.Norm(r.A[j])) + 1e-12 * f;
      c.small(got.s.G(i, j) - b - want, t,
              "G(" + std::to_string(i) + "," + std::to_string(j) +
                  ") minus <A_i, Q(w) A_j>");
    }
    double b = before ? before->s.AW(j, 0) : 0;
    c.small(got.s.AW(j, 0) - b - m.Inner(r.A[j], r.w),
            tol * (1 + m.Norm(r.A[j])) + 1e-12 * f, "AW minus <A_i, w>");
    b = before ? before->s.AQc(j, 0) : 0;
    c.small(got.s.AQc(j, 0) - b - m.Inner(r.A[j], Qc),
            tol * cn * (1 + m.Norm(r.A[j])) + 1e-12 * f,
            "AQc minus <A_i, Q(w) c>");
  }
  double b = before ? before->s.inner_product_of_w_and_c : 0;
  c.small(got.s.inner_product_of_w_and_c - b - m.Inner(r.w, r.c),
          tol * cn + 1e-12 * f, "<w, c>");
  b = before ? before->s.inner_product_of_c_and_Qc : 0;
  c.small(got.s.inner_product_of_c_and_Qc - b - m.Inner(r.c, Qc),
          tol * cn * cn + 1e-12 * f, "<c, Q(w) c>");
}

void Block(Case& c) {
  srand(int(c.draw(1000)));
  Model m = RandomModel(c, true);
  Rig r(c, m);
  c.label(Name(m.kind));
  c.require(r.p->RankOf() == m.rank(), "rank of the cone");
  c.require(r.p->Variables() == r.vars(), "number of variables");
  int rounds = c.integer(0, 4);
  r.w = r.ProbeW();
  c.small(gen::Diff(r.w, m.Identity()), 1e-12, "scaling point after reset");
  double k = c.unit() * 2;
  for (int i = 0; i < rounds; i++) {
    Advance(c, r, k);
    r.w = r.ProbeW();
    VectorXd e = m.Eigenvalues(r.w);
    if (!(e.minCoeff() > 1e-3 && e.maxCoeff() < 1e3) || !m.Regular(r.w)) {
      // Keep the comparison well conditioned; C21 judges the step itself.
      r.p->Reset();
      r.w = r.ProbeW();
      c.small(gen::Diff(r.w, m.Identity()), 1e-12, "scaling point after reset");
    }
    if (c.chance(1, 8)) {
      r.p->Reset();
      r.w = r.ProbeW();
      c.small(gen::Diff(r.w, m.Identity()), 1e-12, "scaling point after reset");
    }
  }
  bool moved = gen::Diff(r.w, m.Identity()) > 1e-3;
  if (moved && r.users) {
    c.nontrivial();
    c.label(std::string("moved ") + Name(m.kind));
  }
  c.log() << "w = " << gen::Str(r.w.transpose())
          << " c = " << gen::Str(r.c.transpose()) << "\n";

  Sys fresh(r.vars(), std::numeric_limits<double>::quiet_NaN());
  r.p->Schur(true, &fresh.s);
  c.label("initialise");
  Compare(c, r, fresh, nullptr, 0);

  // Accumulate onto arbitrary contents.
  Sys before(r.vars(), 0), acc(r.vars(), 0);
  double f = c.pick(std::vector<double>{.5, 3, 100});
  for (int i = 0; i < r.vars(); i++) {
    for (int j = 0; j < r.vars(); j++)
      acc.s.G(i, j) = before.s.G(i, j) = f * std::cos(3.0 * i + 7 * j);
    acc.s.AW(i, 0) = before.s.AW(i, 0) = f * std::cos(1.0 + i);
    acc.s.AQc(i, 0) = before.s.AQc(i, 0) = f * std::cos(2.0 + i);
  }
  acc.s.inner_product_of_w_and_c = before.s.inner_product_of_w_and_c = f;
  acc.s.inner_product_of_c_and_Qc = before.s.inner_product_of_c_and_Qc = -f;
  r.p->Schur(false, &acc.s);
  Compare(c, r, acc, &before, f);

  // Evaluating does not move the point: the same system again.
  Sys again(r.vars(), -7);
  r.p->Schur(true, &again.s);
  Compare(c, r, again, nullptr, 0);
}

// The dedicated epigraph and bound constraints contribute what the general
// constraint with the same data contributes.
template <typename P1, typename P2>
void SameHistory(Case& c, P1& a, P2& b, int vars, int rounds) {
  std::vector<double> raw(vars + 8);
  auto q = (reinterpret_cast<uintptr_t>(raw.data()) + 31) / 32 * 32;
  conex::Ref y(reinterpret_cast<double*>(q), vars, 1);
  a.Reset();
  b.Reset();
  for (int i = 0; i <= rounds; i++) {
    bool init = c.boolean();
    Sys s1(vars, init ? -3 : .25), s2(vars, init ? 9 : .25);
    a.Schur(init, &s1.s);
    b.Schur(init, &s2.s);
    double sc = 1;
    for (int u = 0; u < vars; u++) {
      sc += std::fabs(s2.s.G(u, u)) + std::fabs(s2.s.AQc(u, 0));
    }
    sc += std::fabs(s2.s.inner_product_of_c_and_Qc);
    double tol = 1e-9 * sc;
    for (int u = 0; u < vars; u++) {
      for (int v = 0; v <= u; v++)
        c.small(s1.s.G(u, v) - s2.s.G(u, v), tol, "G of equivalent constraint");
      c.small(s1.s.AW(u, 0) - s2.s.AW(u, 0), tol, "AW of equivalent");
      c.small(s1.s.AQc(u, 0) - s2.s.AQc(u, 0), tol, "AQc of equivalent");
    }
    c.small(s1.s.inner_product_of_w_and_c - s2.s.inner_product_of_w_and_c, tol,
            "<w,c> of equivalent");
    c.small(s1.s.inner_product_of_c_and_Qc - s2.s.inner_product_of_c_and_Qc,
            tol, "<c,Qc> of equivalent");
    if (i == rounds) break;
    for (int u = 0; u < vars; u++) y(u, 0) = c.unit();
    double k = c.real(0, 1.5);
    conex::WeightedSlackEigenvalues e1, e2;
    a.Summary(y, k, &e1);
    b.Summary(y, k, &e2);
    c.small(e1.trace - e2.trace, tol, "trace of equivalent");
    c.small(e1.lambda_max - e2.lambda_max, tol, "lambda_max of equivalent");
    conex::StepOptions o;
    o.affine = false;
    o.c_weight = k;
    o.e_weight = 1;
    conex::StepInfo i1, i2;
    a.Prepare(o, y, &i1);
    b.Prepare(o, y, &i2);
    c.small(i1.norminfd - i2.norminfd, tol, "norminf of equivalent");
    c.small(i1.normsqrd - i2.normsqrd, tol * (1 + i2.normsqrd), "norm");
    double n2 = i2.norminfd * i2.norminfd;
    o.step_size = n2 > 2 ? 2 / n2 : 1;
    if (o.step_size < .05) o.step_size = .05;
    a.Take(o);
    b.Take(o);
  }
}

void Special(Case& c) {
  int kind = int(c.draw(3));
  int rounds = c.integer(0, 3);
  if (rounds) c.nontrivial();
  int n = c.integer(1, 5);
  if (kind == 0) {
    MatrixXd Q = gen::PositiveDefinite(c, n);
    if (c.chance(1, 4)) {
      MatrixXd f = gen::Matrix(c, n, 1);
      Q = f * f.transpose();  // Degenerate metric of the epigraph part.
    }
    c.label("epigraph");
    c.log() << "epigraph of " << gen::Str(Q) << "\n";
    MatrixXd A = MatrixXd::Zero(n + 2, n + 1), b = MatrixXd::Zero(n + 2, 1);
    A(0, n) = A(1, n) = -.5;
    for (int i = 0; i < n; i++) A(2 + i, i) = 1;
    b(0) = 1;
    b(1) = -1;
    MatrixXd M = MatrixXd::Identity(n + 1, n + 1);
    M.bottomRightCorner(n, n) = Q;
    ProbeOf<conex::QuadraticEpigraph> e(Q);
    ProbeOf<conex::QuadraticConstraint> g(M, A, b);
    c.require(e.Variables() == n + 1, "epigraph variables");
    SameHistory(c, e, g, n + 1, rounds);
  } else {
    VectorXd v = gen::Vector(c, n);
    c.label(kind == 1 ? "lower bound" : "upper bound");
    double s = kind == 1 ? -1 : 1;
    MatrixXd A = s * MatrixXd::Identity(n, n), b = s * v;
    ProbeOf<conex::LinearConstraint> g(A, b);
    if (kind == 1) {
      ProbeOf<conex::LowerBound> e(v);
      SameHistory(c, e, g, n, rounds);
    } else {
      ProbeOf<conex::UpperBound> e(v);
      SameHistory(c, e, g, n, rounds);
    }
  }
}
// Equalities contribute their rows, quadratic costs their matrix.
void Affine(Case& c) {
  int n = c.integer(1, 5), r = c.integer(1, 4);
  bool equality = c.boolean();
  conex::Program p(n);
  MatrixXd A, b;
  std::vector<int> vars = c.permutation(n);
  if (equality) {
    A = gen::Matrix(c, r, n);
    b = gen::Matrix(c, r, 1);
    p.AddConstraint(conex::EqualityConstraints(A, b), vars);
  } else {
    r = 0;
    A = gen::PositiveDefinite(c, n);
    p.AddQuadraticCost(A, vars);
  }
  c.label(equality ? "equalities" : "quadratic cost");
  c.log() << (equality ? "rows " : "cost ") << gen::Str(A) << "\n";
  auto& k = p.kkt_system_manager_.eqs.back().constraint;
  bool init = c.boolean();
  if (!init) c.nontrivial();
  int m = n + r;
  Sys got(m, 0), before(m, 0);
  for (int i = 0; i < m; i++) {
    for (int j = 0; j < m; j++)
      got.s.G(i, j) = before.s.G(i, j) = std::cos(3.0 * i + 7 * j);
    got.s.AW(i, 0) = before.s.AW(i, 0) = std::cos(1.0 + i);
    got.s.AQc(i, 0) = before.s.AQc(i, 0) = std::cos(2.0 + i);
  }
  got.s.inner_product_of_w_and_c = before.s.inner_product_of_w_and_c = 2;
  got.s.inner_product_of_c_and_Qc = before.s.inner_product_of_c_and_Qc = 3;
  ConstructSchurComplementSystem(&k, init, &got.s);
  double f = init ? 0 : 1;
  MatrixXd G = MatrixXd::Zero(m, m);
  VectorXd rhs = VectorXd::Zero(m);
  if (equality) {
    G.bottomLeftCorner(r, n) = A;
    G.topRightCorner(n, r) = A.transpose();
    rhs.tail(r) = b;
  } else {
    G = A;
  }
  for (int i = 0; i < m; i++) {
    for (int j = 0; j <= i; j++)
      c.small(got.s.G(i, j) - f * before.s.G(i, j) - G(i, j), 1e-12,
              "matrix of the block");
    c.small(got.s.AW(i, 0) - f * before.s.AW(i, 0), 1e-12, "A'w of the block");
    c.small(got.s.AQc(i, 0) - f * before.s.AQc(i, 0) - rhs(i), 1e-12,
            "right-hand side of the block");
  }
  c.small(got.s.inner_product_of_w_and_c - 2 * f, 1e-12, "<w,c> of the block");
  c.small(got.s.inner_product_of_c_and_Qc - 3 * f, 1e-12, "<c,Qc> of the block");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C20";
  p.rule =
      "Random cone (nine kinds) with up to 3 random data columns plus one "
      "column per coordinate, driven through up to 4 steps towards random "
      "targets; the block is compared entry by entry with the definition in "
      "the cone's Jordan algebra, initialising and accumulating; equalities and quadratic "
      "costs against their data. Non-trivial: the scaling point differs from "
      "the identity and a random column is present; accumulation.";
  p.tests = {{"block", 40000, 500000, Block},
             {"special", 15000, 200000, Special},
             {"affine", 10000, 100000, Affine}};
  p.assumptions = {"The scaling point is read off the columns appended to the "
                   "constraint; C21 checks that it is the right one."};
  return pbt::Main(argc, argv, p);
}
