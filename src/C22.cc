// C22: weighted slack eigenvalue summaries.
#include "cones.h"
#include "conex/cone_program.h"
#include "conex/divergence.h"

using namespace cones;

namespace {

void Summaries(Case& c) {
  srand(int(c.draw(1000)));
  Model m = RandomModel(c, true);
  Rig r(c, m);
  c.label(Name(m.kind));
  r.w = r.ProbeW();
  int rounds = c.integer(0, 3);
  VectorXd e = m.Identity();
  for (int i = 0; i < rounds; i++) {
    // Move the point.
    VectorXd y = r.Solve(c, VectorXd(-1.0 * e + .8 * gen::Vector(c, m.dim())),
                         .3);
    conex::StepOptions o;
    o.affine = false;
    o.c_weight = .3;
    o.e_weight = 1;
    conex::StepInfo info;
    r.p->Prepare(o, r.Y(y), &info);
    o.step_size = 1;
    if (m.kind != kOctonion && info.norminfd > 1.2)
      o.step_size = 1 / info.norminfd;
    r.p->Take(o);
    r.w = r.ProbeW();
    VectorXd ev = m.Eigenvalues(r.w);
    if (!(ev.minCoeff() > 1e-2 && ev.maxCoeff() < 1e2) || !m.Regular(r.w)) {
      r.p->Reset();
      r.w = r.ProbeW();
    }
  }
  double k = c.chance(1, 6) ? 0 : 2 * c.unit();
  // A slack with chosen weighted spectrum.
  VectorXd ws;
  switch (c.draw(5)) {
    case 4: ws = 0 * e; break;
    case 0: ws = m.Random(c, -2, 2); break;
    case 1: ws = m.Random(c, .2, 3); break;
    case 2: ws = m.Random(c, .9, 1.1); break;
    default: ws = c.unit() * 3 * e; break;
  }
  VectorXd wmh = m.Fn(r.w, [](double v) { return 1 / std::sqrt(v); });
  VectorXd s = m.Q(wmh, ws);
  VectorXd y = r.Solve(c, VectorXd(-s), k);
  if (s.norm() == 0 && c.boolean()) {
    k = 0;
    y.setZero();
  }
  if (rounds) c.nontrivial();
  double cond = r.Cond(), wmax = m.Eigenvalues(r.w).maxCoeff();
  double ns = 1 + m.Norm(s) + std::fabs(k) * m.Norm(r.c) + y.norm();
  double eps = 1e-12 * cond * (1 + wmax * ns) * (1 + wmax * ns);
  VectorXd ev = m.Eigenvalues(ws);
  c.log() << "spectrum " << gen::Str(MatrixXd(ev.transpose())) << "\n";
  conex::WeightedSlackEigenvalues p;
  p.trace = p.frobenius_norm_squared = p.lambda_max = p.lambda_min =
      std::numeric_limits<double>::quiet_NaN();
  r.p->Summary(r.Y(y), k, &p);
  c.small(p.trace - m.Inner(e, ws), eps, "trace of the weighted slack");
  c.small(p.frobenius_norm_squared - m.Inner(ws, ws), eps,
          "squared norm of the weighted slack");
  if (m.kind != kOctonion) {
    c.at_most(p.lambda_max, ev.maxCoeff() + eps, "largest eigenvalue");
    c.at_least(p.lambda_min, ev.minCoeff() - eps, "smallest eigenvalue");
    c.at_least(p.lambda_max - p.lambda_min, -eps, "order of eigenvalues");
    if (!m.Matrixial() || m.n == 1) {
      c.small(p.lambda_max - ev.maxCoeff(), eps, "exact largest eigenvalue");
      c.small(p.lambda_min - ev.minCoeff(), eps, "exact smallest eigenvalue");
    }
    if (m.kind > kDense && m.n == 2 && ev.maxCoeff() - ev.minCoeff() > .2 &&
        eps < 1e-8) {
      double hi = p.lambda_max, lo = p.lambda_min;
      for (int t = 0; t < 6; t++) {
        conex::WeightedSlackEigenvalues q;
        r.p->Summary(r.Y(y), k, &q);
        hi = std::max(hi, q.lambda_max);
        lo = std::min(lo, q.lambda_min);
      }
      c.at_least(hi, ev.maxCoeff() - 1e-4, "largest eigenvalue, order two");
      c.at_most(lo, ev.minCoeff() + 1e-4, "smallest eigenvalue, order two");
    }
  }
  c.require(gen::Diff(r.ProbeW(), r.w) == 0, "a summary moved the point");
}

// The summary of a program is the combination of its constraints' summaries:
// the first barrier parameter of a cold solve without rescaling is the inverse
// divergence bound of that combination.
void Combined(Case& c) {
  int n = c.integer(1, 4), K = c.integer(1, 4);
  conex::Program prog(n);
  double tr = 0, fro = 0, lo = 1e300, hi = -1e300;
  int rank = 0;
  MatrixXd G = MatrixXd::Zero(n, n);
  VectorXd AQc = VectorXd::Zero(n), b = gen::Vector(c, n);
  struct Part {
    Model m;
    MatrixXd A;
    VectorXd c;
    std::vector<int> vars;
  };
  std::vector<Part> parts;
  for (int q = 0; q < K; q++) {
    Part p;
    p.m.kind = int(c.draw(4));
    p.m.n = p.m.kind == kLinear ? c.integer(1, 4) : c.integer(1, 3);
    p.m.M = MatrixXd::Identity(p.m.n, p.m.n);
    if (p.m.kind == kQuadMetric) p.m.M = gen::PositiveDefinite(c, p.m.n);
    int k = q == 0 ? n : c.integer(1, n);
    p.vars = c.subset(n, k);
    p.A = gen::Matrix(c, p.m.dim(), k);
    if (q == 0) {
      // Bounds make the system definite.
      p.m.kind = kLinear;
      p.m.n = 2 * n;
      p.A = MatrixXd(2 * n, n);
      p.A << MatrixXd::Identity(n, n), -MatrixXd::Identity(n, n);
      p.A += .2 * gen::Matrix(c, 2 * n, n);
    }
    p.c = .5 * gen::Vector(c, p.m.dim()) + p.m.Identity() * c.real(1, 3);
    parts.push_back(p);
  }
  for (auto& p : parts) {
    c.log() << Name(p.m.kind) << " vars " << gen::Str(p.vars) << " A "
            << gen::Str(p.A) << " c " << gen::Str(MatrixXd(p.c.transpose()))
            << "\n";
    int k = int(p.vars.size());
    MatrixXd cc = p.c;
    switch (p.m.kind) {
      case kLinear: {
        conex::LinearConstraint o(p.A, cc);
        prog.AddConstraint(std::move(o), p.vars);
        break;
      }
      case kSoc: {
        conex::SOCConstraint o(p.A, cc);
        prog.AddConstraint(std::move(o), p.vars);
        break;
      }
      case kQuad:
        prog.AddConstraint(conex::QuadraticConstraint(p.A, cc), p.vars);
        break;
      default:
        prog.AddConstraint(conex::QuadraticConstraint(p.m.M, p.A, cc), p.vars);
    }
    for (int i = 0; i < k; i++) {
      for (int j = 0; j < k; j++)
        G(p.vars[i], p.vars[j]) += p.m.Inner(p.A.col(i), p.A.col(j));
      AQc(p.vars[i]) += p.m.Inner(p.A.col(i), p.c);
    }
  }
  double scale_b = 1, scale_c = 1;
  bool rescale = c.boolean();
  if (rescale) {
    scale_b = 1 / (1 + b.norm());
    scale_c = 1 / (1 + AQc.norm());
  }
  VectorXd y = G.ldlt().solve(VectorXd(AQc * scale_c - b * scale_b));
  for (auto& p : parts) {
    VectorXd s = scale_c * p.c;
    for (size_t i = 0; i < p.vars.size(); i++) s -= y(p.vars[i]) * p.A.col(i);
    VectorXd ev = p.m.Eigenvalues(s);
    tr += ev.sum();
    fro += ev.squaredNorm();
    lo = std::min(lo, ev.minCoeff());
    hi = std::max(hi, ev.maxCoeff());
    rank += p.m.rank();
  }
  conex::WeightedSlackEigenvalues sum;
  sum.trace = tr;
  sum.frobenius_norm_squared = fro;
  sum.lambda_min = lo;
  sum.lambda_max = hi;
  sum.rank = rank;
  conex::SolverConfiguration cfg;
  cfg.max_iterations = 1;
  cfg.final_centering_steps = 0;
  cfg.divergence_upper_bound = c.pick(std::vector<double>{1, .5, .1, .01, 10});
  cfg.enable_rescaling = rescale;
  cfg.inv_sqrt_mu_max = 1e9;
  double want =
      conex::DivergenceUpperBoundInverse(cfg.divergence_upper_bound * rank, sum);
  std::vector<double> out(n);
  conex::Solve(b, prog, cfg, out.data());
  double got = prog.stats->sqrt_inv_mu[0];
  c.log() << "lambda " << lo << " " << hi << " trace " << tr << " norm " << fro
          << " expects " << want << " got " << got << "\n";
  if (!(want > 0)) {
    // No solution: another rule picks the parameter.
    c.label("no inverse");
    if (lo > 1e-9 && lo < hi)
      c.small(got - 2 / (lo + hi), 1e-6 * got, "smallest norm parameter");
    return;
  }
  double min = std::sqrt(1 / (1e-15 + cfg.maximum_mu));
  want = std::max(want, min);
  if (parts.size() > 1) c.nontrivial();
  c.label("inverse");
  // The inverse is a root of a quadratic; near a double root it is
  // ill-conditioned.
  auto at = [&](double rel) {
    auto t = sum;
    t.trace *= 1 + rel;
    return conex::DivergenceUpperBoundInverse(
        cfg.divergence_upper_bound * rank, t);
  };
  double sens = std::fabs(at(1e-9) - want) + std::fabs(at(-1e-9) - want);
  auto at2 = [&](double rel) {
    auto t = sum;
    t.lambda_max *= 1 + rel;
    t.lambda_min *= 1 - rel;
    return conex::DivergenceUpperBoundInverse(
        cfg.divergence_upper_bound * rank, t);
  };
  sens += std::fabs(at2(1e-9) - want) + std::fabs(at2(-1e-9) - want);
  if (sens > 1e-4 * want) return;
  c.small(got - want, 1e-7 * want + 10 * sens,
          "first barrier parameter against the combined summary");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C22";
  p.rule =
      "Random cone (nine kinds), scaling point after up to 3 steps, slack of "
      "chosen weighted spectrum (indefinite, definite, clustered, multiple of "
      "the identity). Non-trivial: the point was moved. Combined: programs of "
      "1-4 linear, second-order and quadratic cone constraints on random "
      "variable subsets; non-trivial: more than one constraint.";
  p.tests = {{"summary", 40000, 500000, Summaries},
             {"combined", 20000, 200000, Combined}};
  p.assumptions = {"The octonion bounds on the eigenvalues are stated "
                   "heuristics and not compared."};
  return pbt::Main(argc, argv, p);
}
