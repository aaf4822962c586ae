// C03: infeasible or unbounded programs are never reported as solved.
#include "prog.h"

using namespace prog;

namespace {

conex::SolverConfiguration AnyConfig(Case& c, const Spec& s) {
  auto f = RandomConfig(c, s);
  f.final_centering_steps = c.pick(std::vector<int>{5, 0, 2, 10});
  f.max_iterations = c.pick(std::vector<int>{50, 25, 100});
  if (c.chance(1, 2)) f.final_centering_tolerance = 1;
  int k = int(c.draw(3));
  if (k == 1) f.maximum_mu = 1e7;
  if (k == 2) {
    f.maximum_mu = 1e6;
    f.infeasibility_threshold = 1e3;
  }
  f.prepare_dual_variables = !c.chance(1, 4);
  return f;
}

// Per-variable: sum over the constraints of <A_v, x>.
VectorXd Transposed(const Spec& s, const std::vector<VectorXd>& x) {
  VectorXd r = VectorXd::Zero(s.n);
  for (size_t i = 0; i < s.cons.size(); i++)
    for (size_t j = 0; j < s.cons[i].vars.size(); j++)
      r(s.cons[i].vars[j]) += s.cons[i].m.Inner(s.cons[i].A[j], x[i]);
  return r;
}

Result Check(Case& c, const Spec& s, const conex::SolverConfiguration& cfg) {
  c.log() << Str(s) << Str(cfg);
  conex::Program p(s.n);
  BuildInto(s, &p);
  Result r = Solve(s, &p, cfg);
  c.log() << Str(r);
  c.require(!r.solved, "a program without solutions is reported solved");
  c.require(!r.returned, "the call returned success without a solution");
  c.require(r.iterations <= cfg.max_iterations, "iteration limit exceeded");
  c.label(r.primal_infeasible && r.dual_infeasible ? "both flags"
          : r.primal_infeasible                    ? "constraints infeasible"
          : r.dual_infeasible                      ? "objective unbounded"
                                                   : "no flag");
  return r;
}

// x in the interior with A'x = 0 and <c, x> < 0: no point is feasible.
void Infeasible(Case& c) {
  srand(int(c.draw(1000)));
  Options o;
  o.bounds = false;
  o.max_cons = 4;
  Spec s = Structure(c, o);
  std::vector<VectorXd> x, x1;
  for (auto& k : s.cons) {
    x.push_back(Interior(c, k.m, .5, 2));
    x1.push_back(Interior(c, k.m, .5, 2));
  }
  VectorXd norm = VectorXd::Zero(s.n), r = Transposed(s, x);
  for (size_t i = 0; i < s.cons.size(); i++)
    for (int v : s.cons[i].vars) norm(v) += s.cons[i].m.Inner(x[i], x[i]);
  double total = 0, cx = 0;
  for (size_t i = 0; i < s.cons.size(); i++) {
    Con& k = s.cons[i];
    for (size_t j = 0; j < k.vars.size(); j++)
      k.A[j] -= (r(k.vars[j]) / norm(k.vars[j])) * x[i];
    k.c = gen::Vector(c, k.m.dim());
    total += k.m.Inner(x[i], x[i]);
    cx += k.m.Inner(k.c, x[i]);
  }
  if (gen::Eigenvalues(s.Gram()).minCoeff() < .01) c.discard();
  double depth = c.pick(std::vector<double>{1, .3, 3, 10});
  for (size_t i = 0; i < s.cons.size(); i++)
    s.cons[i].c -= ((cx + depth * total) / total) * x[i];
  bool dual = c.chance(2, 3);  // A strictly feasible dual point exists.
  s.b =
      dual ? Transposed(s, x1)
           : VectorXd(gen::Vector(c, s.n) * c.pick(std::vector<double>{1, 10}));
  c.nontrivial();
  auto cfg = AnyConfig(c, s);
  Result q = Check(c, s, cfg);
  if (dual)
    c.require(!q.dual_infeasible || q.primal_infeasible,
              "infeasible constraints flagged as an unbounded objective only");
  if (!q.primal_infeasible || !cfg.prepare_dual_variables) return;
  // The dual variables separate: A'x vanishes relative to -<c, x>.
  std::vector<VectorXd> d;
  double cd = 0;
  for (size_t i = 0; i < s.cons.size(); i++) {
    const Con& k = s.cons[i];
    if (k.m.Vectorial() || k.m.d > 1) return;
    hc::HC h(1, k.m.n, k.m.n);
    if (k.m.kind != cones::kLinear) h.m[0] = q.duals[i];
    d.push_back(k.m.kind == cones::kLinear ? VectorXd(q.duals[i].col(0))
                                           : k.m.Vec(h));
    c.require(d.back().allFinite(), "certificate is not finite");
    double least = k.m.Eigenvalues(d.back()).minCoeff();
    c.at_least(least, -1e-3 * k.m.Norm(d.back()),
               "certificate leaves the cone");
    cd += k.m.Inner(k.c, d.back());
  }
  c.label("separating certificate");
  c.require(cd < 0, "the certificate does not separate");
  c.log() << "<c,x> " << cd << " A'x " << Transposed(s, d).norm() << "\n";
  c.at_most(Transposed(s, d).norm(), -1e-4 * cd,
            "equations of the certificate");
}

// v with -A v in the interior and b'v > 0, and a strictly feasible point.
void Unbounded(Case& c) {
  srand(int(c.draw(1000)));
  Options o;
  o.bounds = false;
  Spec s = Structure(c, o);
  VectorXd v(s.n), y0 = gen::Vector(c, s.n);
  for (int i = 0; i < s.n; i++) v(i) = c.real(.5, 1.5) * (c.boolean() ? 1 : -1);
  for (auto& k : s.cons) {
    VectorXd rest = -Interior(c, k.m, .5, 2);
    int nv = int(k.vars.size()), j = c.integer(0, nv - 1);
    for (int i = 0; i < nv; i++)
      if (i != j) rest -= v(k.vars[i]) * k.A[i];
    k.A[j] = rest / v(k.vars[j]);
    k.c = Interior(c, k.m, .5, 2);
    for (int i = 0; i < nv; i++) k.c += y0(k.vars[i]) * k.A[i];
  }
  if (gen::Eigenvalues(s.Gram()).minCoeff() < .01) c.discard();
  s.b = gen::Vector(c, s.n);
  double want = c.pick(std::vector<double>{1, .3, 3}) * v.norm();
  s.b += (want - s.b.dot(v)) / v.squaredNorm() * v;
  c.nontrivial();
  auto cfg = AnyConfig(c, s);
  Result q = Check(c, s, cfg);
  c.require(!q.primal_infeasible,
            "an unbounded objective flagged as infeasible constraints");
  // The direction is reached at the end of the iterations.
  if (!q.dual_infeasible || cfg.max_iterations < 50) return;
  double by = s.b.dot(q.y), least = 1e300;
  c.require(by > 0, "the certificate does not improve the objective");
  for (auto& k : s.cons) {
    VectorXd r = k.Slack(q.y) - k.c;
    least = std::min(least, k.m.Eigenvalues(r).minCoeff());
  }
  c.log() << "b'y " << by << " slack of the direction " << least << "\n";
  // Slacks k c - A y stay in the cone, with k falling below the square root of
  // the threshold.
  c.label("improving certificate");
  double size = 0;
  for (auto& k : s.cons) size = std::max(size, k.m.Norm(k.c));
  c.at_least(least,
             -(10 + 100 * size) / std::sqrt(cfg.infeasibility_threshold) * by,
             "the certificate leaves the cone");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C03";
  p.rule =
      "infeasible: random programs over every cone with a planted interior "
      "dual ray separating by a margin, with and without feasible dual. "
      "unbounded: strictly feasible programs with a planted interior direction "
      "improving the objective. Configurations vary every effort option, the "
      "barrier limit and the infeasibility threshold. Non-trivial: every case "
      "(the ray exists by construction).";
  p.tests = {{"infeasible", 30000, 400000, Infeasible},
             {"unbounded", 30000, 400000, Unbounded}};
  return pbt::Main(argc, argv, p);
}
