// Programs built through the C interface and, independently, through C++.
#pragma once
#include "interfaces/conex.h"

#include "compare.h"
#include "conex/linear_constraint.h"

namespace capi {
using namespace prog;

enum { kCon, kCost, kRows };
// How a step is carried out through the C interface.
enum { kDirect, kFilled };

struct Step {
  int kind = kCon;
  int via = kDirect;
  Con k;
  MatrixXd Q;           // Cost on all variables, symmetric.
  MatrixXd rows, lb, ub;  // lb <= rows y <= ub
  int entries = 1;      // Constraints it adds.
};

struct Script {
  int n = 0;
  std::vector<Step> steps;
  bool costs = false, linear = true;
  VectorXd b;
};

inline std::string Str(const Step& s) {
  std::ostringstream o;
  o << (s.via == kFilled ? "filled " : "direct ");
  if (s.kind == kCon) o << prog::Str(s.k);
  if (s.kind == kCost) o << "cost " << gen::Str(s.Q);
  if (s.kind == kRows)
    o << "rows " << gen::Str(s.rows) << " between "
      << gen::Str(MatrixXd(s.lb.transpose())) << " and "
      << gen::Str(MatrixXd(s.ub.transpose()));
  return o.str();
}

// On all variables, in order.
inline void Widen(Con* k, int n) {
  std::vector<VectorXd> a(n, VectorXd::Zero(k->m.dim()));
  for (size_t i = 0; i < k->vars.size(); i++) a[k->vars[i]] = k->A[i];
  k->A = a;
  k->vars.clear();
  for (int i = 0; i < n; i++) k->vars.push_back(i);
}

// Few enough digits for exact sums.
inline MatrixXd Coarse(MatrixXd a) {
  for (int i = 0; i < a.size(); i++)
    a.data()[i] = std::round(a.data()[i] * (1 << 20)) / (1 << 20);
  return a;
}

inline Script RandomScript(Case& c, bool costs) {
  Options o;
  o.max_vars = 4;
  o.max_cons = 3;
  o.bounds = false;
  o.kinds = {cones::kLinear, cones::kLinear,  cones::kSoc,       cones::kDense,
             cones::kReal,   cones::kComplex, cones::kQuaternion};
  if (costs) o.kinds = {cones::kLinear};
  if (!costs && c.chance(1, 8)) o.kinds = {cones::kOctonion, cones::kLinear};
  Planted p = Feasible(c, o);
  Script s;
  s.n = p.s.n;
  s.b = p.s.b;
  s.costs = costs;
  for (auto& k : p.s.cons) {
    Step t;
    t.k = k;
    s.linear &= k.m.kind == cones::kLinear;
    if (k.m.kind != cones::kDense || c.boolean()) Widen(&t.k, s.n);
    t.via = k.m.kind == cones::kDense ||
                    (k.m.kind == cones::kLinear && c.boolean())
                ? kDirect
                : kFilled;
    if (t.via == kDirect && int(t.k.vars.size()) == s.n && c.chance(1, 3)) {
      // The last variables have no columns.
      while (t.k.A.size() > 1 && t.k.A.back().isZero(0)) {
        t.k.more.insert(t.k.more.begin(), t.k.vars.back());
        t.k.vars.pop_back();
        t.k.A.pop_back();
      }
      if (!t.k.more.empty()) c.label("missing columns");
    }
    s.steps.push_back(t);
  }
  if (c.chance(1, 3)) {
    Step t;
    t.kind = kRows;
    int r = c.integer(1, 3);
    t.rows = gen::Matrix(c, r, s.n);
    VectorXd v = t.rows * p.y0;
    t.lb = t.ub = MatrixXd(v);
    double inf = std::numeric_limits<double>::infinity();
    int eqs = 0, ineqs = 0;
    for (int i = 0; i < r; i++) {
      if (eqs + 1 < s.n && eqs == 0 && c.chance(1, 3)) {
        eqs++;
        continue;
      }
      ineqs++;
      switch (c.integer(0, 2)) {
        case 0: t.lb(i) = -inf; break;
        case 1: t.ub(i) = inf; break;
        default:;
      }
      t.lb(i) -= c.real(.3, 2);
      t.ub(i) += c.real(.3, 2);
    }
    MatrixXd ai, bi, ae, be;
    conex::PreprocessLinearInequality(t.rows, t.lb, t.ub, &ai, &bi, &ae, &be);
    t.entries = (ai.rows() > 0) + (ae.rows() > 0);
    s.steps.insert(s.steps.begin() + c.integer(0, int(s.steps.size())), t);
  }
  if (costs) {
    int k = c.integer(1, 2);
    for (int i = 0; i < k; i++) {
      Step t;
      t.kind = kCost;
      t.via = c.boolean() ? kFilled : kDirect;
      std::vector<int> vars = c.subset(s.n, c.integer(1, s.n));
      MatrixXd q = Coarse(gen::PositiveDefinite(c, int(vars.size()))) *
                   (c.chance(1, 8) ? std::ldexp(1, -27) : 1);
      t.Q = MatrixXd::Zero(s.n, s.n);
      for (size_t a = 0; a < vars.size(); a++)
        for (size_t b = 0; b < vars.size(); b++) t.Q(vars[a], vars[b]) = q(a, b);
      s.steps.insert(s.steps.begin() + c.integer(0, int(s.steps.size())), t);
    }
  }
  return s;
}

// Through C++.
inline void Apply(conex::Program* p, const Step& s) {
  if (s.kind == kCon) {
    Add(p, s.k);
  } else if (s.kind == kCost) {
    std::vector<int> vars;
    for (int i = 0; i < s.Q.rows(); i++)
      if (s.via == kFilled || s.Q(i, i) > 0) vars.push_back(i);
    MatrixXd q(vars.size(), vars.size());
    for (size_t a = 0; a < vars.size(); a++)
      for (size_t b = 0; b < vars.size(); b++) q(a, b) = s.Q(vars[a], vars[b]);
    p->AddQuadraticCost(q, vars);
  } else {
    MatrixXd ai, bi, ae, be;
    conex::PreprocessLinearInequality(s.rows, s.lb, s.ub, &ai, &bi, &ae, &be);
    if (ai.rows()) p->AddConstraint(conex::LinearConstraint(ai, bi));
    if (ae.rows()) p->AddConstraint(conex::EqualityConstraints(ae, be));
  }
}

struct Fill {
  int id, var, r, c, d;  // var < 0: affine term.
  double val;
};

inline int Apply(void* p, const Fill& f) {
  return f.var < 0
             ? CONEX_UpdateAffineTerm(p, f.id, f.val, f.r, f.c, f.d)
             : CONEX_UpdateLinearOperator(p, f.id, f.val, f.var, f.r, f.c, f.d);
}

inline void Fills(Case& c, const Con& k, const VectorXd& x, int id, int var,
                  std::vector<Fill>* out) {
  bool zeros = c.chance(1, 3);
  if (!k.m.Matrixial()) {
    for (int r = 0; r < x.size(); r++)
      if (zeros || x(r) != 0) out->push_back({id, var, r, 0, 0, x(r)});
    return;
  }
  hc::HC h = k.m.Mat(x);
  for (int d = 0; d < k.m.d; d++)
    for (int i = 0; i < k.m.n; i++)
      for (int j = 0; j <= i; j++) {
        if ((i == j && d > 0) || (!zeros && h.m[d](i, j) == 0)) continue;
        if (c.boolean())
          out->push_back({id, var, i, j, d, h.m[d](i, j)});
        else
          out->push_back({id, var, j, i, d, h.m[d](j, i)});
      }
}

inline void Ok(Case& c, int status, const char* what) {
  c.require(status == CONEX_SUCCESS,
            std::string("a valid call fails: ") + what);
}

// Through the C interface. `count` constraints were there before.
inline void Apply(Case& c, void* p, const Step& s, int n, int count) {
  if (s.kind == kRows) {
    CONEX_AddLinearInequalities(p, s.rows.data(), int(s.rows.rows()),
                                int(s.rows.cols()), s.lb.data(),
                                int(s.rows.rows()), s.ub.data(),
                                int(s.rows.rows()));
    return;
  }
  int id = -7;
  if (s.kind == kCost) {
    if (s.via == kDirect) {
      // Only the symmetric part matters.
      MatrixXd skew = Coarse(gen::Matrix(c, n, n)), q = s.Q;
      if (c.boolean()) {
        for (int i = 0; i < n; i++)
          for (int j = 0; j < n; j++)
            if (s.Q(i, i) > 0 && s.Q(j, j) > 0)
              q(i, j) += skew(i, j) - skew(j, i);
      }
      Ok(c, CONEX_AddQuadraticCost(p, q.data(), n, n), "AddQuadraticCost");
    } else {
      Ok(c, CONEX_NewQuadraticCost(p, &id), "NewQuadraticCost");
      c.require(id == count, "wrong identifier of a quadratic cost");
      for (int i : c.permutation(n))
        for (int j : c.permutation(n))
          Ok(c, CONEX_UpdateQuadraticCostMatrix(p, id, s.Q(i, j), i, j),
             "UpdateQuadraticCostMatrix");
    }
    return;
  }
  const Con& k = s.k;
  if (s.via == kDirect) {
    if (k.m.kind == cones::kLinear) {
      MatrixXd a = k.Matrix();
      id = CONEX_AddDenseLinearConstraint(p, a.data(), int(a.rows()),
                                          int(a.cols()), k.c.data(),
                                          int(k.c.size()));
    } else {
      std::vector<double> a;
      for (auto& x : k.A) {
        MatrixXd m = k.m.Mat(x).m[0];
        a.insert(a.end(), m.data(), m.data() + m.size());
      }
      MatrixXd cc = k.m.Mat(k.c).m[0];
      const int columns = int(k.vars.size());
      bool all = columns + int(k.more.size()) == n;
      for (int i = 0; all && i < columns; i++) all = k.vars[i] == i;
      int m = k.m.n;
      if (all && (!k.more.empty() || c.boolean())) {
        id = CONEX_AddDenseLMIConstraint(p, a.data(), m, m, columns, cc.data(), m, m);
      } else {
        std::vector<long> v(k.vars.begin(), k.vars.end());
        id = CONEX_AddSparseLMIConstraint(p, a.data(), m, m, int(v.size()),
                                          cc.data(), m, m, v.data(),
                                          int(v.size()));
      }
    }
    c.require(id == count, "wrong identifier of an added constraint");
    return;
  }
  if (k.m.kind == cones::kLinear)
    Ok(c, CONEX_NewLinearInequality(p, k.m.n, &id), "NewLinearInequality");
  else if (k.m.kind == cones::kSoc)
    Ok(c, CONEX_NewLorentzConeConstraint(p, k.m.n, &id), "NewLorentzCone");
  else
    Ok(c, CONEX_NewLinearMatrixInequality(p, k.m.n, k.m.d, &id),
       "NewLinearMatrixInequality");
  c.require(id == count, "wrong identifier of a new constraint");
  std::vector<Fill> f;
  for (size_t j = 0; j < k.A.size(); j++)
    Fills(c, k, k.A[j], id, k.vars[j], &f);
  Fills(c, k, k.c, id, -1, &f);
  for (int i : c.permutation(int(f.size()))) Ok(c, Apply(p, f[i]), "Update");
}

// Which entries have dual variables that are defined.
inline std::vector<int> DualSizes(const Script& s) {
  std::vector<int> r;
  for (auto& t : s.steps)
    for (int i = 0; i < t.entries; i++) {
      if (t.kind == kRows) {
        MatrixXd ai, bi, ae, be;
        conex::PreprocessLinearInequality(t.rows, t.lb, t.ub, &ai, &bi, &ae,
                                          &be);
        r.push_back(ai.rows() && i == 0 ? int(ai.rows()) : 0);
      } else if (t.kind == kCost || t.k.m.Vectorial() ||
                 t.k.m.kind == cones::kOctonion) {
        r.push_back(-1);
      } else {
        r.push_back(t.k.m.Matrixial() ? t.k.m.n * t.k.m.n : t.k.m.n);
      }
    }
  return r;
}

inline CONEX_SolverConfiguration ToC(const conex::SolverConfiguration& f) {
  CONEX_SolverConfiguration g;
  memset(static_cast<void*>(&g), 0x5a, sizeof g);
  CONEX_SetDefaultOptions(&g);
  g.prepare_dual_variables = f.prepare_dual_variables;
  g.initialization_mode = f.initialization_mode;
  g.inv_sqrt_mu_max = f.inv_sqrt_mu_max;
  g.minimum_mu = f.minimum_mu;
  g.maximum_mu = f.maximum_mu;
  g.divergence_upper_bound = f.divergence_upper_bound;
  g.enable_line_search = f.enable_line_search;
  g.dinf_upper_bound = f.dinf_upper_bound;
  g.final_centering_steps = f.final_centering_steps;
  g.final_centering_tolerance = f.final_centering_tolerance;
  g.initial_centering_steps_warmstart = f.initial_centering_steps_warmstart;
  g.initial_centering_steps_coldstart = f.initial_centering_steps_coldstart;
  g.warmstart_abort_threshold = f.warmstart_abort_threshold;
  g.max_iterations = f.max_iterations;
  g.iterative_refinement_iterations = f.iterative_refinement_iterations;
  g.infeasibility_threshold = f.infeasibility_threshold;
  g.kkt_error_tolerance = f.kkt_error_tolerance;
  g.enable_rescaling = f.enable_rescaling;
  g.kkt_solver = f.kkt_solver;
  return g;
}

inline conex::SolverConfiguration AnyConfig(Case& c, const Script& s) {
  Spec spec;
  spec.n = s.n;
  for (auto& t : s.steps)
    if (t.kind == kCon) spec.cons.push_back(t.k);
  auto f = RandomConfig(c, spec);
  if (c.chance(1, 3)) f.prepare_dual_variables = 0;
  if (c.chance(1, 4)) f.maximum_mu = c.pick(std::vector<double>{10, 1, 1e8});
  if (c.chance(1, 6)) f.minimum_mu = 1e-6;
  if (c.chance(1, 4))
    f.dinf_upper_bound = c.pick(std::vector<double>{.8, 1.2, .5});
  if (c.chance(1, 3)) f.max_iterations = c.integer(1, 12);
  if (c.chance(1, 6))
    f.infeasibility_threshold = c.pick(std::vector<double>{10, 1e3, 1e9});
  if (c.chance(1, 6))
    f.kkt_error_tolerance = c.pick(std::vector<double>{.1, 10});
  if (c.chance(1, 4)) f.final_centering_steps = c.integer(0, 4);
  f.initial_centering_steps_warmstart = c.chance(1, 3) ? c.integer(1, 3) : 0;
  f.warmstart_abort_threshold = c.pick(std::vector<double>{2, .5, 0, 50});
  if (s.costs) {
    f.enable_line_search = 1;
    f.enable_rescaling = 0;
  }
  return f;
}

// Status and numbers of both interfaces after a solve.
inline void CompareSolves(Case& c, void* p, conex::Program* q,
                          const Script& s, const VectorXd* b,
                          const conex::SolverConfiguration& f, int seed,
                          const std::string& on) {
  VectorXd y = VectorXd::Constant(s.n, -12345.678), z = y;
  CONEX_SolverConfiguration g = ToC(f);
  srand(seed);
  int ra = b ? CONEX_Maximize(p, b->data(), s.n, &g, y.data(), s.n)
             : CONEX_Solve(p, &g, y.data(), s.n);
  srand(seed);
  int rb = b ? conex::Solve(MatrixXd(*b), *q, f, z.data())
             : conex::Solve(*q, f, z.data());
  c.log() << (b ? "maximise " + gen::Str(MatrixXd(b->transpose())) : "solve")
          << " " << (f.initialization_mode ? "warm " : "") << prog::Str(f)
          << "C: " << ra << " " << gen::Str(MatrixXd(y.transpose()))
          << " C++: " << rb << " " << gen::Str(MatrixXd(z.transpose()))
          << "\n";
  c.label(rb ? "solved" : "not solved");
  c.require(ra == rb, "the status depends on " + on);
  c.require(Same(MatrixXd(y), MatrixXd(z)), "the point depends on " + on);
  int n = q->stats ? q->stats->num_iter : 0;
  for (int i = -n - 2; i < n + 2; i++) {
    CONEX_IterationStats st = {-5, -5};
    CONEX_GetIterationStats(p, &st, i);
    int k = i < 0 ? n + i : i;
    if (k < 0 || k >= n) {
      c.require(st.mu == -5 && st.iteration_number == -5,
                "statistics of an iteration that was not performed");
      continue;
    }
    double v = q->stats->sqrt_inv_mu[k];
    c.require(st.iteration_number == k && Same(st.mu, 1 / (v * v)),
              "iteration statistics depend on " + on);
  }
  std::vector<int> sizes = DualSizes(s);
  for (size_t i = 0; i < sizes.size(); i++) {
    int size = CONEX_GetDualVariableSize(p, int(i));
    c.require(size == q->GetDualVariableSize(int(i)),
              "sizes of dual variables depend on " + on);
    if (sizes[i] < 0) continue;
    c.require(size == sizes[i], "wrong size of a dual variable");
    if (!f.prepare_dual_variables || !rb) continue;
    VectorXd u = VectorXd::Constant(size + 2, 77);
    MatrixXd v = MatrixXd::Constant(size, 1, 77);
    CONEX_GetDualVariable(p, int(i), u.data() + 1, size, 1);
    q->GetDualVariable(int(i), &v);
    c.require(u(0) == 77 && u(size + 1) == 77,
              "more written than the size of a dual variable");
    c.require(Same(MatrixXd(u.segment(1, size)), v),
              "a dual variable depends on " + on);
  }
}

struct Handle {
  void* p = CONEX_CreateConeProgram();
  ~Handle() { CONEX_DeleteConeProgram(p); }
};

}  // namespace capi
