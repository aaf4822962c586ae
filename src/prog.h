// Programs as data: random, strictly feasible by construction, buildable
// through the real interface, and an independent optimality check.
#pragma once
#include "conex/cone_program.h"
#include "conex/equality_constraint.h"
#include "conex/quadratic_cost.h"
#include "cones.h"

namespace prog {
using cones::Model;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using pbt::Case;

enum { kPlain = 0, kLowerBound, kUpperBound, kEquality };

struct Con {
  Model m;
  int special = kPlain;
  std::vector<int> vars;
  std::vector<VectorXd> A;  // One coordinate vector per variable.
  VectorXd c;
  // Further variables of the constraint, which have no columns.
  std::vector<int> more;

  std::vector<int> Listed() const {
    std::vector<int> v = vars;
    v.insert(v.end(), more.begin(), more.end());
    return v;
  }
  VectorXd Slack(const VectorXd& y) const {
    VectorXd s = c;
    for (size_t i = 0; i < vars.size(); i++) s -= y(vars[i]) * A[i];
    return s;
  }
  double Scale() const {
    double s = 1 + m.Norm(c);
    for (auto& a : A) s += m.Norm(a);
    return s;
  }
  MatrixXd Matrix() const {
    MatrixXd a(c.size(), A.size());
    for (size_t i = 0; i < A.size(); i++) a.col(i) = A[i];
    return a;
  }
  void SetMatrix(const MatrixXd& a) {
    A.clear();
    for (int i = 0; i < a.cols(); i++) A.push_back(a.col(i));
  }
  bool Equality() const { return special == kEquality; }
};

struct Cost {  // .5 z' Q z
  MatrixXd Q;
  std::vector<int> vars;
};

struct Spec {
  int n = 0;
  std::vector<Con> cons;
  std::vector<Cost> costs;
  VectorXd b;  // Maximise b'y - costs.
  int rank() const {
    int r = 0;
    for (auto& k : cons)
      if (!k.Equality()) r += k.m.rank();
    return r;
  }
  bool LinearOnly() const {
    for (auto& k : cons)
      if (k.m.kind != cones::kLinear) return false;
    return true;
  }
  bool HasEqualities() const {
    for (auto& k : cons)
      if (k.Equality()) return true;
    return false;
  }
  // Sum of A'A over the cone constraints.
  MatrixXd Gram() const {
    MatrixXd G = MatrixXd::Zero(n, n);
    for (auto& k : cons) {
      if (k.Equality()) continue;
      for (size_t i = 0; i < k.vars.size(); i++)
        for (size_t j = 0; j < k.vars.size(); j++)
          G(k.vars[i], k.vars[j]) += k.m.Inner(k.A[i], k.A[j]);
    }
    return G;
  }
  double MinSlack(const VectorXd& y) const {
    double s = 1e300;
    for (auto& k : cons)
      if (!k.Equality())
        s = std::min(s, k.m.Eigenvalues(k.Slack(y)).minCoeff());
    return s;
  }
  double EqualityResidual(const VectorXd& y) const {
    double s = 0;
    for (auto& k : cons)
      if (k.Equality()) s = std::max(s, gen::MaxAbs(k.Slack(y)));
    return s;
  }
};

inline std::string Str(const Con& k) {
  std::ostringstream o;
  static const char* sp[] = {"", " lower bounds", " upper bounds",
                             " equalities"};
  o << cones::Name(k.m.kind) << sp[k.special] << " n=" << k.m.n << " vars "
    << gen::Str(k.vars);
  if (!k.more.empty()) o << " and " << gen::Str(k.more);
  if (k.m.kind == cones::kQuadMetric) o << " metric " << gen::Str(k.m.M);
  o << " A' = " << gen::Str(MatrixXd(k.Matrix().transpose()))
    << " c' = " << gen::Str(MatrixXd(k.c.transpose()));
  return o.str();
}
inline std::string Str(const Spec& s) {
  std::ostringstream o;
  o << "variables: " << s.n << ", maximise "
    << gen::Str(MatrixXd(s.b.transpose())) << "\n";
  for (auto& k : s.cons) o << "  " << Str(k) << "\n";
  for (auto& q : s.costs)
    o << "  cost " << gen::Str(q.Q) << " on " << gen::Str(q.vars) << "\n";
  return o.str();
}

template <typename T>
bool AddHermitian(conex::Program* p, const Con& k) {
  std::vector<typename T::Matrix> a;
  for (auto& x : k.A) a.push_back(cones::ToCode<T>(k.m.Mat(x)));
  typename T::Matrix cc = cones::ToCode<T>(k.m.Mat(k.c));
  return p->AddConstraint(conex::HermitianPsdConstraint<T>(k.m.n, a, cc),
                          k.Listed());
}

// Returns the interface's failure flag.
inline bool Add(conex::Program* p, const Con& k) {
  if (k.special == kEquality) {
    MatrixXd cc = k.c;
    return p->AddConstraint(conex::EqualityConstraints(k.Matrix(), cc), k.Listed());
  }
  if (k.special == kLowerBound)
    return p->AddConstraint(conex::LowerBound(-k.c), k.Listed());
  if (k.special == kUpperBound)
    return p->AddConstraint(conex::UpperBound(k.c), k.Listed());
  MatrixXd a, cc = k.c;
  if (!k.m.Matrixial()) a = k.Matrix();
  switch (k.m.kind) {
    case cones::kLinear:
      return p->AddConstraint(conex::LinearConstraint(a, cc), k.Listed());
    case cones::kSoc:
      return p->AddConstraint(conex::SOCConstraint(a, cc), k.Listed());
    case cones::kQuad:
      return p->AddConstraint(conex::QuadraticConstraint(a, cc), k.Listed());
    case cones::kQuadMetric:
      return p->AddConstraint(conex::QuadraticConstraint(k.m.M, a, cc), k.Listed());
    case cones::kDense: {
      std::vector<MatrixXd> mats;
      for (auto& x : k.A) mats.push_back(k.m.Mat(x).m[0]);
      return p->AddConstraint(
          conex::DenseLMIConstraint(mats, k.m.Mat(k.c).m[0]), k.Listed());
    }
    case cones::kReal: return AddHermitian<conex::Real>(p, k);
    case cones::kComplex: return AddHermitian<conex::Complex>(p, k);
    case cones::kQuaternion: return AddHermitian<conex::Quaternions>(p, k);
    default: return AddHermitian<conex::Octonions>(p, k);
  }
}

inline void BuildInto(const Spec& s, conex::Program* p) {
  for (auto& k : s.cons) Add(p, k);
  for (auto& q : s.costs) p->AddQuadraticCost(q.Q, q.vars);
}

struct Result {
  bool returned = false, solved = false, primal_infeasible = false,
       dual_infeasible = false;
  int iterations = 0;
  VectorXd y;
  std::vector<MatrixXd> duals;  // Per constraint; empty for equalities.
  std::vector<double> inv_sqrt_mu;
  double b_scaling = 1, c_scaling = 1;
  // Barrier parameter reached, in the units of the program.
  double mu = 0;
};

inline Result Collect(const Spec& s, conex::Program* p, bool duals) {
  Result r;
  auto st = p->Status();
  r.solved = st.solved;
  r.primal_infeasible = st.primal_infeasible;
  r.dual_infeasible = st.dual_infeasible;
  r.iterations = st.num_iterations;
  if (p->stats) {
    for (int i = 0; i < p->stats->num_iter; i++)
      r.inv_sqrt_mu.push_back(p->stats->sqrt_inv_mu[i]);
    r.b_scaling = p->stats->b_scaling();
    r.c_scaling = p->stats->c_scaling();
    if (!r.inv_sqrt_mu.empty()) {
      double k = r.inv_sqrt_mu.back();
      r.mu = 1 / (k * k * r.b_scaling * r.c_scaling);
    }
  }
  if (duals) {
    for (size_t i = 0; i < s.cons.size(); i++) {
      MatrixXd x;
      const Con& k = s.cons[i];
      if (!k.Equality() && !k.m.Vectorial() && k.m.kind != cones::kOctonion) {
        x.resize(k.m.n, k.m.kind == cones::kLinear ? 1 : k.m.n);
        p->GetDualVariable(int(i), &x);
      }
      r.duals.push_back(x);
    }
  }
  return r;
}

inline Result Solve(const Spec& s, conex::Program* p,
                    const conex::SolverConfiguration& cfg,
                    bool fresh_cost = true) {
  VectorXd y = VectorXd::Constant(s.n, -12345.678);
  bool ret;
  if (fresh_cost)
    ret = conex::Solve(MatrixXd(s.b), *p, cfg, y.data());
  else
    ret = conex::Solve(*p, cfg, y.data());
  Result r = Collect(s, p, cfg.prepare_dual_variables);
  r.returned = ret;
  r.y = y;
  return r;
}

inline Result Solve(const Spec& s, const conex::SolverConfiguration& cfg) {
  conex::Program p(s.n);
  BuildInto(s, &p);
  return Solve(s, &p, cfg);
}

// What a random program may contain.
struct Options {
  int max_vars = 6;
  int max_cons = 4;
  std::vector<int> kinds{cones::kLinear,     cones::kLinear, cones::kSoc,
                         cones::kQuad,       cones::kQuadMetric,
                         cones::kDense,      cones::kReal,
                         cones::kComplex,    cones::kQuaternion};
  bool bounds = true;
  bool equalities = false;
  int equality_rows = 3;
  double decades = 0;       // Scaling of constraints and variables.
  bool real_data = false;   // Some hermitian columns without imaginary part.
};

inline Model ModelOf(Case& c, int kind) {
  Model m;
  m.kind = kind;
  switch (kind) {
    case cones::kLinear: m.n = c.integer(1, 6); break;
    case cones::kSoc:
    case cones::kQuad:
    case cones::kQuadMetric: m.n = c.integer(1, 4); break;
    case cones::kDense:
    case cones::kReal: m.n = c.integer(1, 5); break;
    case cones::kComplex: m.n = c.integer(1, 3); m.d = 2; break;
    case cones::kQuaternion: m.n = c.integer(1, 3); m.d = 4; break;
    default: m.n = c.integer(1, 3); m.d = 8; break;
  }
  m.M = MatrixXd::Identity(m.n, m.n);
  if (kind == cones::kQuadMetric) m.M = gen::PositiveDefinite(c, m.n);
  return m;
}

// An interior element: spectrum in [lo, hi].
inline VectorXd Interior(Case& c, const Model& m, double lo, double hi) {
  return m.Random(c, lo, hi);
}

inline Con RandomCon(Case& c, int n, int kind, bool bounds) {
  Con k;
  int nv = c.integer(1, n);
  k.vars = c.subset(n, nv);
  if (kind == cones::kLinear && bounds && c.chance(1, 4)) {
    k.special = c.boolean() ? kLowerBound : kUpperBound;
    k.m.kind = cones::kLinear;
    k.m.n = nv;
    k.m.M = MatrixXd::Identity(nv, nv);
    double sg = k.special == kLowerBound ? -1 : 1;
    k.SetMatrix(sg * MatrixXd::Identity(nv, nv));
  } else {
    k.m = ModelOf(c, kind);
    for (int i = 0; i < nv; i++) {
      VectorXd a = gen::Vector(c, k.m.dim());
      if (c.chance(1, 10))
        for (int j = 0; j < a.size(); j++) a(j) = std::round(a(j));
      k.A.push_back(a);
    }
  }
  k.c = VectorXd::Zero(k.m.dim());
  return k;
}

inline void DropImaginary(const Model& m, VectorXd* x) {
  int re = m.n * (m.n + 1) / 2;
  x->tail(x->size() - re).setZero();
}

// The structure (everything but affine terms and objective), with every
// variable covered and determined.
inline Spec Structure(Case& c, const Options& o) {
  Spec s;
  s.n = c.integer(1, o.max_vars);
  int K = c.integer(1, o.max_cons);
  for (int i = 0; i < K; i++)
    s.cons.push_back(RandomCon(c, s.n, c.pick(o.kinds), o.bounds));
  s.b = VectorXd::Zero(s.n);
  if (gen::Eigenvalues(s.Gram()).minCoeff() < .05) {
    // Determine the rest with rows of its own.
    Con k;
    k.m.kind = cones::kLinear;
    k.m.n = s.n;
    k.m.M = MatrixXd::Identity(s.n, s.n);
    k.vars = c.permutation(s.n);
    MatrixXd a = MatrixXd::Identity(s.n, s.n) + .3 * gen::Matrix(c, s.n, s.n);
    k.SetMatrix(a);
    k.c = VectorXd::Zero(s.n);
    s.cons.insert(s.cons.begin() + c.integer(0, int(s.cons.size())), k);
  }
  return s;
}

// Independent rows over a random subset of the variables, satisfied at y0.
inline bool AddEqualities(Case& c, Spec* s, const VectorXd& y0, int rows) {
  if (s->n < 2 || rows < 1) return false;
  rows = std::min(rows, s->n - 1);
  int groups = 0;
  MatrixXd all(0, s->n);
  while (rows > 0) {
    Con k;
    k.special = kEquality;
    int nv = c.integer(1, s->n);
    k.vars = c.subset(s->n, nv);
    int r = c.integer(1, std::min(rows, nv));
    MatrixXd a = gen::Matrix(c, r, nv);
    for (int i = 0; i < r; i++)
      if (c.chance(1, 4))
        for (int j = 0; j < nv; j++) a(i, j) = std::round(a(i, j));
    // Pivoting is static, so coefficients need to be of similar magnitude.
    for (int i = 0; i < r; i++)
      for (int j = 0; j < nv; j++)
        if (std::fabs(a(i, j)) < .01) a(i, j) = 0;
    MatrixXd next = MatrixXd::Zero(all.rows() + r, s->n);
    next.topRows(all.rows()) = all;
    for (int j = 0; j < nv; j++)
      next.block(all.rows(), k.vars[j], r, 1) = a.col(j);
    Eigen::JacobiSVD<MatrixXd> svd(next);
    if (svd.singularValues().minCoeff() < .2) return groups > 0;
    all = next;
    k.m.kind = cones::kLinear;
    k.m.n = r;
    k.m.M = MatrixXd::Identity(r, r);
    k.SetMatrix(a);
    k.c = VectorXd::Zero(r);
    for (int j = 0; j < nv; j++) k.c += y0(k.vars[j]) * k.A[j];
    s->cons.insert(s->cons.begin() + c.integer(0, int(s->cons.size())), k);
    rows -= r;
    groups++;
  }
  return groups > 0;
}

struct Planted {
  Spec s;
  VectorXd y0;               // Strictly feasible point.
  std::vector<VectorXd> s0;  // Its slacks.
  std::vector<VectorXd> x0;  // Strictly feasible dual (multipliers for
                             // equalities).
  double mu0 = 0;            // Positive: (y0, x0) is the central point of mu0.
};

inline void SetObjective(Planted* p) {
  Spec& s = p->s;
  s.b = VectorXd::Zero(s.n);
  for (size_t i = 0; i < s.cons.size(); i++) {
    const Con& k = s.cons[i];
    for (size_t j = 0; j < k.vars.size(); j++)
      s.b(k.vars[j]) += k.m.Inner(k.A[j], p->x0[i]);
  }
}

// central > 0: x0 = central * s0^{-1}, with slacks of order one or central.
inline Planted Feasible(Case& c, const Options& o, double central = 0) {
  Planted p;
  p.mu0 = central;
  p.s = Structure(c, o);
  int real = 0;
  if (o.real_data) {
    real = int(c.draw(3));  // 1: some columns, 2: everything.
    for (auto& k : p.s.cons)
      if (k.m.d > 1)
        for (auto& a : k.A)
          if (real == 2 || (real == 1 && c.boolean())) DropImaginary(k.m, &a);
    if (gen::Eigenvalues(p.s.Gram()).minCoeff() < .02) c.discard();
  }
  if (o.decades > 0) {
    VectorXd f(p.s.n);
    for (int i = 0; i < p.s.n; i++)
      f(i) = std::pow(10, c.chance(1, 3) ? o.decades * c.unit() : 0);
    for (auto& k : p.s.cons) {
      double g = std::pow(10, c.chance(1, 3) ? o.decades * c.unit() : 0);
      if (k.special == kPlain)
        for (size_t j = 0; j < k.vars.size(); j++)
          k.A[j] *= g * f(k.vars[j]);
    }
  }
  p.y0 = gen::Vector(c, p.s.n);
  if (o.equalities && c.chance(2, 3))
    AddEqualities(c, &p.s, p.y0, c.integer(1, o.equality_rows));
  double lo = c.pick(std::vector<double>{.3, .1, 1});
  for (auto& k : p.s.cons) {
    VectorXd s = VectorXd::Zero(k.m.dim()), x;
    if (k.Equality()) {
      x = gen::Vector(c, k.m.n);
    } else {
      s = Interior(c, k.m, lo, 3);
      if (central > 0) {
        double cut = c.pick(std::vector<double>{1.5137, 1.0371, 2.0173, 3.1});
        s = k.m.Fn(s, [&](double v) { return v > cut ? v : v * central; });
      }
      if (o.decades > 0 && c.chance(1, 3)) s *= std::pow(10, c.unit());
      if (real == 2 && k.m.d > 1) DropImaginary(k.m, &s);
      x = central > 0
              ? VectorXd(central * k.m.Fn(s, [](double v) { return 1 / v; }))
              : Interior(c, k.m, lo, 3);
      k.c = s;
      for (size_t j = 0; j < k.vars.size(); j++)
        k.c += p.y0(k.vars[j]) * k.A[j];
    }
    p.s0.push_back(s);
    p.x0.push_back(x);
  }
  SetObjective(&p);
  return p;
}

inline conex::SolverConfiguration RandomConfig(Case& c, const Spec& s) {
  conex::SolverConfiguration f;
  f.prepare_dual_variables = 1;
  f.inv_sqrt_mu_max = c.pick(std::vector<double>{1000, 100, 30, 1e4});
  f.divergence_upper_bound = c.pick(std::vector<double>{1, .5, 10, 1000});
  f.final_centering_tolerance = c.pick(std::vector<double>{.01, .1, .001});
  f.final_centering_steps = c.pick(std::vector<int>{10, 15, 25});
  f.max_iterations = c.pick(std::vector<int>{100, 60, 200});
  f.kkt_solver = int(c.draw(3));
  f.iterative_refinement_iterations = c.chance(1, 3) ? c.integer(1, 3) : 0;
  f.enable_rescaling = !c.chance(1, 3);
  f.enable_line_search = s.LinearOnly() && c.chance(1, 3);
  f.initial_centering_steps_coldstart = c.chance(1, 4) ? c.integer(1, 4) : 0;
  return f;
}
inline std::string Str(const conex::SolverConfiguration& f) {
  std::ostringstream o;
  o << "inv_sqrt_mu_max=" << f.inv_sqrt_mu_max
    << " divergence_upper_bound=" << f.divergence_upper_bound
    << " final_centering_tolerance=" << f.final_centering_tolerance
    << " final_centering_steps=" << f.final_centering_steps
    << " max_iterations=" << f.max_iterations
    << " kkt_solver=" << f.kkt_solver
    << " refinement=" << f.iterative_refinement_iterations
    << " rescaling=" << f.enable_rescaling
    << " line_search=" << f.enable_line_search
    << " initial_centering=" << f.initial_centering_steps_coldstart
    << " dinf=" << f.dinf_upper_bound << "\n";
  return o.str();
}
inline std::string Str(const Result& r) {
  std::ostringstream o;
  o.precision(10);
  o << "returned " << r.returned << " solved " << r.solved << " flags "
    << r.primal_infeasible << r.dual_infeasible << " iterations "
    << r.iterations << " mu " << r.mu << " y "
    << gen::Str(MatrixXd(r.y.transpose())) << "\n";
  return o.str();
}
// Whether the run may have ended because centering steps or iterations ran out
// rather than because the last step was small, or broke down after many
// centering steps.
inline bool Exhausted(const conex::SolverConfiguration& cfg, const Result& r) {
  size_t last = 0, n = r.inv_sqrt_mu.size();
  while (last < n && r.inv_sqrt_mu[n - 1 - last] >=
                         r.inv_sqrt_mu.back() * (1 - 1e-12))
    last++;
  return int(last) > cfg.final_centering_steps / (r.solved ? 1 : 2) ||
         r.iterations > cfg.max_iterations - cfg.final_centering_steps;
}

}  // namespace prog
