// C05: equivalent cone formulations give the same solution.
#include "prog.h"

using namespace prog;

namespace {

Con Coordinates(const Con& k, const Model& m,
                const std::function<VectorXd(const VectorXd&)>& f) {
  Con q;
  q.m = m;
  q.vars = k.vars;
  for (auto& a : k.A) q.A.push_back(f(a));
  q.c = f(k.c);
  return q;
}
Model MatrixModel(int kind, int n) {
  Model m;
  m.kind = kind;
  m.n = n;
  m.d = 1;
  m.M = MatrixXd::Identity(n, n);
  return m;
}
VectorXd Symmetric(const Model& m, const MatrixXd& x) {
  hc::HC h(1, m.n, m.n);
  h.m[0] = x;
  return m.Vec(h);
}

enum { kSamePath, kOtherPath };

// Another formulation of k; kOtherPath: the barrier differs.
Con Equivalent(Case& c, const Con& k, int* path, std::string* name) {
  *path = kSamePath;
  const Model& m = k.m;
  switch (m.kind) {
    case cones::kLinear: {
      if (k.special != kPlain) {
        *name = "bounds as inequalities";
        Con q = k;
        q.special = kPlain;
        return q;
      }
      int kind = c.chance(1, 4) ? cones::kDense : cones::kReal;
      Model t = MatrixModel(kind, m.n);
      *name = kind == cones::kDense ? "inequalities as dense diagonal"
                                    : "inequalities as hermitian diagonal";
      return Coordinates(k, t, [&](const VectorXd& x) {
        return Symmetric(t, x.asDiagonal());
      });
    }
    case cones::kSoc:
    case cones::kQuad: {
      if (c.boolean()) {
        *name = "second-order as quadratic";
        Con q = k;
        q.m.kind = m.kind == cones::kSoc ? cones::kQuad : cones::kSoc;
        if (m.kind == cones::kSoc && c.boolean())
          q.m.kind = cones::kQuadMetric;  // Identity metric, spelled out.
        return q;
      }
      *path = kOtherPath;
      *name = "second-order as arrow matrix";
      Model t =
          MatrixModel(c.boolean() ? cones::kDense : cones::kReal, m.n + 1);
      return Coordinates(k, t, [&](const VectorXd& x) {
        MatrixXd a = MatrixXd::Identity(m.n + 1, m.n + 1) * x(0);
        a.block(0, 1, 1, m.n) = x.tail(m.n).transpose();
        a.block(1, 0, m.n, 1) = x.tail(m.n);
        return Symmetric(t, a);
      });
    }
    case cones::kQuadMetric: {
      *name = "metric as second-order";
      Model t = m;
      t.kind = c.boolean() ? cones::kSoc : cones::kQuad;
      t.M = MatrixXd::Identity(m.n, m.n);
      MatrixXd R = m.M.llt().matrixU();  // M = R'R.
      return Coordinates(k, t, [&](const VectorXd& x) {
        VectorXd y = x;
        y.tail(m.n) = R * x.tail(m.n);
        return y;
      });
    }
    case cones::kDense:
    case cones::kReal: {
      *name = "dense as hermitian";
      Con q = k;
      q.m.kind = m.kind == cones::kDense ? cones::kReal : cones::kDense;
      return q;
    }
    default: {
      *path = kOtherPath;
      *name = m.d == 2 ? "complex as real embedding"
                       : "quaternion as real embedding";
      Model t =
          MatrixModel(c.boolean() ? cones::kDense : cones::kReal, m.d * m.n);
      return Coordinates(k, t, [&](const VectorXd& x) {
        MatrixXd e = hc::Embed(m.Mat(x));
        return Symmetric(t, (e + e.transpose()) * .5);
      });
    }
  }
}

void Run(Case& c, const Options& o) {
  Planted p = Feasible(c, o);
  Spec t = p.s;
  bool same = true, matrices = false, changed = false;
  for (auto& k : t.cons) {
    if (changed && c.chance(1, 3)) continue;
    int path;
    std::string name;
    k = Equivalent(c, k, &path, &name);
    same &= path == kSamePath;
    c.label(name);
    changed = true;
  }
  for (auto& k : t.cons) matrices |= k.m.Matrixial() && k.m.n > 1;
  for (auto& k : p.s.cons) matrices |= k.m.Matrixial() && k.m.n > 1;
  conex::SolverConfiguration cfg;
  cfg.inv_sqrt_mu_max = c.pick(std::vector<double>{30, 10, 100, 300});
  cfg.final_centering_tolerance = matrices ? 1e-4 : .01;
  cfg.final_centering_steps = 50;
  cfg.max_iterations = 200;
  cfg.kkt_solver = int(c.draw(3));
  cfg.iterative_refinement_iterations = c.integer(0, 2);
  cfg.enable_rescaling = same && !c.chance(1, 3);
  bool linear = p.s.LinearOnly() && t.LinearOnly();
  cfg.enable_line_search = linear && c.chance(1, 3);
  int seed = int(c.draw(1000));
  c.log() << Str(p.s) << Str(cfg) << "stated as " << Str(t);
  srand(seed);
  Result a = Solve(p.s, cfg);
  Result b = Solve(t, cfg);
  c.log() << Str(a) << Str(b);
  bool exhausted = matrices && (Exhausted(cfg, a) || Exhausted(cfg, b));
  if (exhausted) c.label("centering ran out");
  if (!exhausted) c.nontrivial();
  if (!exhausted) c.require(a.solved == b.solved, "the status depends on the formulation");
  if (!a.solved || !b.solved) {
    c.label("not solved");
    return;
  }
  double scale = 1 + a.y.norm() + b.y.norm();
  // Each point is feasible in the other formulation.
  for (auto& k : p.s.cons)
    c.at_least(k.m.Eigenvalues(k.Slack(b.y)).minCoeff(),
               -1e-8 * k.Scale() * scale, "slack in the other formulation");
  for (auto& k : t.cons)
    c.at_least(k.m.Eigenvalues(k.Slack(a.y)).minCoeff(),
               -1e-8 * k.Scale() * scale, "slack in the other formulation");
  // Centering that ran out (see DESIGN.md, heuristics) leaves the position on
  // the central path undetermined.
  if (exhausted) return;
  double round = 1e-8 * (1 + p.s.b.norm()) * scale;
  c.small(p.s.b.dot(a.y - b.y),
          1.2 * (a.mu * p.s.rank() + b.mu * t.rank()) + round,
          "objective in another formulation");
  if (same) {
    c.label("same path");
    c.small((a.y - b.y).norm(), (matrices ? 3e-3 : 1e-5) * scale,
            "solution in another formulation");
  }
}

void Vectors(Case& c) {
  Options o;
  o.kinds = {cones::kLinear, cones::kSoc, cones::kQuad, cones::kQuadMetric};
  Run(c, o);
}
void All(Case& c) { Run(c, Options()); }
void Matrices(Case& c) {
  Options o;
  o.kinds = {cones::kDense, cones::kReal, cones::kComplex, cones::kQuaternion};
  o.real_data = true;
  Run(c, o);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C05";
  p.rule =
      "Random well-posed programs solved as given and with some constraints "
      "restated in an equivalent cone: bounds, diagonal and arrow matrices, "
      "identity metric, transformed metric, dense and hermitian, real "
      "embeddings. Non-trivial: both runs ended because their last step was "
      "small, so that they have to agree.";
  p.tests = {{"vectors", 40000, 500000, Vectors},
             {"all", 40000, 500000, All},
             {"matrices", 30000, 300000, Matrices}};
  return pbt::Main(argc, argv, p);
}
