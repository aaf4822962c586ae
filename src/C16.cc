// C16: the sparse KKT solver solves the assembled system.
#include "kkt.h"

using namespace conex;
using gen::MatrixXd;
using gen::VectorXd;
using pbt::Case;

namespace {

// Replaces the blocks by positive definite data on the same sets and the
// equalities by well-conditioned ones. Equalities whose rows are nearly
// dependent on earlier ones become blocks when `fresh`; later rounds keep
// the layout and draw until they are independent.
struct Rows {
  MatrixXd A;  // rows so far
  bool Add(const kkt::Item& it, int n) {
    MatrixXd B(A.rows() + it.A.rows(), n);
    B.setZero();
    if (A.rows()) B.topRows(A.rows()) = A;
    for (int r = 0; r < it.A.rows(); r++)
      for (size_t j = 0; j < it.vars.size(); j++)
        B(A.rows() + r, it.vars[j]) = it.A(r, j);
    if (B.rows() > n) return false;
    Eigen::JacobiSVD<MatrixXd> svd(B);
    if (svd.singularValues()(B.rows() - 1) < .1) return false;
    A = B;
    return true;
  }
};

void Fill(Case& c, kkt::System* s, bool first, double shift, double scale) {
  Rows rows;
  std::vector<bool> shifted(s->n);
  for (auto& it : s->items) {
    int k = it.vars.size();
    if (it.equality) {
      if (first) {
        int m = c.integer(1, k);
        it.b = MatrixXd(m, 1);
        it.A = gen::Matrix(c, m, k);
        for (int i = 0; i < m; i++) it.b(i, 0) = c.unit();
        // Drops rows until what is left is independent.
        while (it.A.rows() > 0 && !rows.Add(it, s->n)) {
          it.A = MatrixXd(it.A.topRows(it.A.rows() - 1));
          it.b = MatrixXd(it.b.topRows(it.A.rows()));
        }
        if (it.A.rows() == 0) it.equality = false;
      } else {
        it.A *= c.pick<double>({1, 2, -1});
        for (int i = 0; i < it.b.rows(); i++) it.b(i, 0) = c.unit();
        rows.Add(it, s->n);
      }
    }
    if (!it.equality) {
      it.block = kkt::RandomBlock(c, k, c.integer(0, k), false);
      it.block.G *= scale;
      for (int j = 0; j < k; j++)
        if (!shifted[it.vars[j]]) {
          shifted[it.vars[j]] = true;
          it.block.G(j, j) += shift;
        }
    }
  }
  if (first) {
    for (int v = 0; v < s->n; v++)
      if (!shifted[v]) {
        kkt::Item it;
        it.vars = {v};
        it.block = kkt::RandomBlock(c, 1, 0, false);
        it.block.G(0, 0) = shift;
        s->items.insert(s->items.begin() + c.integer(0, s->items.size()), it);
      }
  }
}

// Smallest pivot, relative to the largest entry, met when the supernodes are
// eliminated in the solver's order with diagonal pivoting inside each.
double SmallestPivot(const kkt::System& s, const MatrixXd& K) {
  auto& cl = s.prog->cliques;
  auto& dv = s.prog->dual_vars;
  std::vector<int> leaf;
  int root = 0;
  for (size_t i = 0; i < dv.size(); i++) {
    leaf.push_back(dv[i].empty());
    if (dv[i].size() > dv[root].size()) root = i;
  }
  MatrixData d = GetData(cl, leaf, root);
  MatrixXd M = K;
  double smallest = 1, scale = gen::MaxAbs(K);
  size_t at = 0;
  for (int size : d.supernode_size) {
    std::vector<int> left(d.permutation_inverse.begin() + at,
                          d.permutation_inverse.begin() + at + size);
    at += size;
    while (!left.empty()) {
      size_t best = 0;
      for (size_t i = 1; i < left.size(); i++)
        if (std::fabs(M(left[i], left[i])) > std::fabs(M(left[best], left[best])))
          best = i;
      int v = left[best];
      left.erase(left.begin() + best);
      double p = M(v, v);
      smallest = std::min(smallest, std::fabs(p) / scale);
      if (std::fabs(p) < 1e-6 * scale) return std::fabs(p) / scale;
      VectorXd col = M.col(v);
      M -= col * col.transpose() / p;
      M.row(v).setZero();
      M.col(v).setZero();
    }
  }
  return smallest;
}

void Check(Case& c, kkt::System& s, SupernodalKKTSolver& solver, int mode,
           int refine, bool definite) {
  MatrixXd K;
  VectorXd AW, AQc;
  double wc, cQc;
  s.Dense(&K, &AW, &AQc, &wc, &cQc);
  Eigen::JacobiSVD<MatrixXd> svd(K, Eigen::ComputeFullU | Eigen::ComputeFullV);
  double smax = svd.singularValues()(0), smin = svd.singularValues()(s.N - 1);
  c.require(smin > 1e-6 * smax, "generated system is well conditioned");
  solver.Assemble();
  c.require(solver.Factor(), "factorisation succeeds");
  int solves = c.integer(1, 3);
  // Cholesky and QR are backward stable; a fixed elimination order of a system
  // with multipliers grows with the inverse of the smallest pivot, and pivots
  // that vanish are replaced by 1e-9.
  double cond = smax / smin, tol = 1e-13 * (1 + cond);
  bool replaced = false;
  if (!definite && mode != CONEX_QR_FACTORIZATION) {
    double pivot = SmallestPivot(s, K);
    replaced = pivot < 1e-4;
    tol = replaced ? std::numeric_limits<double>::max() : 1e-14 * (1 + cond) / pivot / pivot;
    c.label(replaced ? "pivots replaced" : "no pivot replaced");
    // A replaced pivot implies that solutions are refined at least once.
    if (pivot * gen::MaxAbs(K) < 1e-12) {
      refine = std::max(refine, 1);
      c.label("refined by default");
    }
  }
  // Each refinement contracts the error by I - (solve)(system).
  double refined = tol;
  if (!definite && mode != CONEX_QR_FACTORIZATION && refine) {
    // Sampled on dense vectors: simple ones leave no rounding error behind.
    double rho = 0;
    for (int j = 0; j < 8; j++) {
      VectorXd v(s.N);
      for (int i = 0; i < s.N; i++) v(i) = std::sin(1.0 + i * i + 37 * j);
      VectorXd e = v - solver.Solve(K * v);
      rho = std::max(rho, e.norm() / v.norm());
      e = solver.Solve(v);
      e = v - K * e;
      rho = std::max(rho, e.norm() / v.norm());
    }
    if (rho < 1e-3)
      refined = cond * std::pow(100 * rho, refine + 1) + 1e-11 * (1 + cond);
  }
  for (int k = 0; k < solves; k++) {
    VectorXd b;
    switch (c.integer(0, 2)) {
      case 0: b = gen::Vector(c, s.N); break;
      case 1: b = VectorXd::Unit(s.N, c.integer(0, s.N - 1)); break;
      default: b = AQc; break;
    }
    VectorXd x = svd.solve(b);
    double sc = 1e-3 + x.norm();
    VectorXd y = solver.Solve(b);
    c.small((y - x).norm() / sc, tol, "solution");
    VectorXd storage = VectorXd::Zero(s.N + 8);
    double* p = storage.data();
    while (reinterpret_cast<uintptr_t>(p) % 64) p++;
    Eigen::Map<MatrixXd, Eigen::Aligned> z(p, s.N, 1);
    z = b;
    solver.SolveInPlace(&z);
    c.small((z - x).norm() / sc, refined,
            "solution in place");
  }
}

void Run(Case& c, bool equalities) {
  kkt::System s;
  std::string kind;
  for (auto& v : gen::CliqueSet(c, 9, 7, &s.n, &kind)) {
    kkt::Item it;
    it.vars = v;
    it.equality = equalities && c.boolean();
    s.items.push_back(it);
  }
  double shift = c.pick<double>({1, .3, 10}), scale = c.pick<double>({1, 4, .1});
  Fill(c, &s, true, shift, scale);
  s.Declare();
  for (auto& it : s.items)
    c.log() << (it.equality ? "E" + std::to_string(it.A.rows()) : "B")
            << gen::Str(it.vars) << " ";
  int mode = c.pick<int>({CONEX_LLT_FACTORIZATION, CONEX_LDLT_FACTORIZATION,
                          CONEX_QR_FACTORIZATION});
  int refine = c.pick<int>({0, 1, 2, 5});
  c.log() << "mode " << mode << " refine " << refine << "\n";
  c.label(kind);
  c.label("mode " + std::to_string(mode) + (s.N > s.n ? " with multipliers" : ""));
  if (s.items.size() >= 3 && s.n >= 3) c.nontrivial();
  SupernodalKKTSolver solver(s.prog->cliques, s.prog->dual_vars);
  solver.Bind(s.Pointers());
  solver.SetSolverMode(mode);
  solver.SetIterativeRefinementIterations(refine);
  int rounds = c.integer(1, 3);
  for (int r = 0; r < rounds; r++) {
    if (r) {
      Fill(c, &s, false, shift, scale);
      s.Update();
      if (c.chance(1, 3)) {
        mode = c.integer(0, 2);
        solver.SetSolverMode(mode);
        refine = c.integer(0, 2);
        solver.SetIterativeRefinementIterations(refine);
        c.log() << "then mode " << mode << " refine " << refine << "\n";
      }
    }
    Check(c, s, solver, mode, refine, s.N == s.n);
  }
}

void Definite(Case& c) { Run(c, false); }
void Multipliers(Case& c) { Run(c, true); }

void NotDefinite(Case& c) {
  kkt::System s;
  std::string kind;
  for (auto& v : gen::CliqueSet(c, 9, 7, &s.n, &kind)) {
    kkt::Item it;
    it.vars = v;
    s.items.push_back(it);
  }
  Fill(c, &s, true, 1, 1);
  s.Declare();
  SupernodalKKTSolver solver(s.prog->cliques, s.prog->dual_vars);
  solver.Bind(s.Pointers());
  solver.SetSolverMode(CONEX_LLT_FACTORIZATION);
  if (c.boolean()) {
    solver.Assemble();
    c.require(solver.Factor(), "definite system is accepted");
  }
  // Makes the system indefinite along one direction inside one block.
  MatrixXd K;
  VectorXd AW, AQc;
  double wc, cQc;
  s.Dense(&K, &AW, &AQc, &wc, &cQc);
  auto& it = s.items[c.integer(0, s.items.size() - 1)];
  int k = it.vars.size();
  VectorXd d = gen::Vector(c, k);
  d(c.integer(0, k - 1)) += 2;
  d /= d.norm();
  VectorXd full = VectorXd::Zero(s.n);
  for (int j = 0; j < k; j++) full(it.vars[j]) = d(j);
  double q = full.dot(K * full);
  it.block.G -= (q + c.real(.5, 2)) * d * d.transpose();
  for (auto& i : s.items) c.log() << gen::Str(i.vars) << " ";
  c.log() << "direction " << gen::Str(full) << "\n";
  if (s.items.size() >= 3 && s.n >= 3) c.nontrivial();
  s.Update();
  solver.Assemble();
  c.require(!solver.Factor(), "factorisation of an indefinite system fails");
  // And recovers.
  Fill(c, &s, false, 1, 1);
  s.Update();
  Check(c, s, solver, CONEX_LLT_FACTORIZATION, 0, true);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C16";
  p.rule =
      "Random collections of variable sets with positive semidefinite blocks "
      "plus a positive shift on every variable, optionally equality rows with "
      "independent coefficients; random factorisation mode, refinement count, "
      "right-hand sides, reassembly with new data and mode changes; "
      "non-trivial: three blocks and three variables or more";
  p.tests = {{"definite", 30000, 600000, Definite},
             {"multipliers", 30000, 600000, Multipliers},
             {"not_definite", 30000, 600000, NotDefinite}};
  p.assumptions = {"generated systems have condition number below 1e6",
                   "every variable has a positive definite term"};
  return pbt::Main(argc, argv, p);
}
