// C08: objectives accumulate, clear and do not leak between solves.
#include "certify.h"

using namespace prog;

namespace {

struct Answer {
  bool solved = false;
  VectorXd y;
};

Answer Fresh(const Spec& s, const conex::SolverConfiguration& cfg, int seed) {
  srand(seed);
  Answer a;
  Result r = Solve(s, cfg);
  a.solved = r.solved;
  a.y = r.y;
  return a;
}

void Run(Case& c, bool quadratic) {
  Options o;
  o.max_vars = 4;
  o.max_cons = 3;
  if (quadratic) o.kinds = {cones::kLinear};
  Planted p = Feasible(c, o);
  Box(c, &p);  // Any objective is attained.
  Spec& s = p.s;
  if (quadratic) {
    Cost q;
    q.vars = c.subset(s.n, c.integer(1, s.n));
    q.Q = gen::PositiveDefinite(c, int(q.vars.size()));
    s.costs.push_back(q);
  }
  conex::SolverConfiguration cfg;
  cfg.inv_sqrt_mu_max = c.pick(std::vector<double>{30, 100, 10});
  cfg.final_centering_steps = 20;
  cfg.max_iterations = 80;
  if (quadratic) {
    cfg.enable_line_search = 1;
    cfg.enable_rescaling = 0;
  } else {
    cfg.enable_rescaling = c.boolean();
  }
  c.log() << Str(s) << Str(cfg);

  conex::Program prog(s.n);
  VectorXd model = VectorXd::Zero(s.n);  // Minimised.
  bool known = true;  // Whether the accumulated cost is specified.
  int added = 0, solves = 0, rejected = 0, explicit_solves = 0;
  auto some = [&]() {
    VectorXd v = gen::Vector(c, s.n);
    if (c.chance(1, 5)) v.setZero();
    if (c.chance(1, 5)) v *= c.pick(std::vector<double>{10, .1, -3});
    return v;
  };
  bool built = false;
  auto build = [&]() {
    BuildInto(s, &prog);
    built = true;
    c.log() << "constraints added\n";
  };
  auto wrong = [&]() {
    int k = s.n + c.pick(std::vector<int>{1, -1, 2});
    VectorXd v = gen::Vector(c, std::max(0, k)).array() + 1;
    rejected++;
    if (built && c.chance(1, 3)) {
      c.log() << "maximise an objective of size " << v.size() << "\n";
      c.label("explicit objective of the wrong size");
      VectorXd y = VectorXd::Zero(s.n + 2);
      c.require(!conex::Solve(MatrixXd(v), prog, cfg, y.data()),
                "solved for an objective of the wrong size");
      c.require(!prog.Status().solved,
                "solved for an objective of the wrong size");
      return;
    }
    prog.AddLinearCost(v);
    c.log() << "cost of size " << v.size() << "\n";
  };
  int steps = c.integer(2, 9);
  for (int i = 0; i < steps; i++) {
    switch (c.integer(0, 5)) {
      case 0:
      case 1: {
        VectorXd v = some();
        prog.AddLinearCost(v);
        model += v;
        added++;
        c.log() << "cost " << gen::Str(MatrixXd(v.transpose())) << "\n";
        break;
      }
      case 2:
        prog.ClearLinearCosts();
        model.setZero();
        known = true;
        c.log() << "clear\n";
        break;
      case 3: wrong(); break;
      default: {
        if (!built) {
          if (c.boolean()) build();
          else break;
        }
        bool direct = !known || c.chance(1, 3);
        int seed = int(c.draw(100));
        Spec t = s;
        VectorXd y = VectorXd::Constant(s.n, -12345.678);
        srand(seed);
        bool ret;
        if (direct) {
          t.b = some();
          c.log() << "maximise " << gen::Str(MatrixXd(t.b.transpose())) << "\n";
          ret = conex::Solve(MatrixXd(t.b), prog, cfg, y.data());
          known = false;
          explicit_solves++;
        } else {
          t.b = -model;
          c.log() << "solve, expecting "
                  << gen::Str(MatrixXd(model.transpose())) << "\n";
          ret = conex::Solve(prog, cfg, y.data());
        }
        solves++;
        Answer a = Fresh(t, cfg, seed);
        c.log() << "solved " << ret << a.solved << " "
                << gen::Str(MatrixXd(y.transpose())) << " "
                << gen::Str(MatrixXd(a.y.transpose())) << "\n";
        c.require(ret == a.solved,
                  "the status differs from a fresh program with the objective");
        if (ret) {
          c.label("solved");
          c.small((y - a.y).norm(), 1e-6 * (1 + a.y.norm()),
                  "distance from the solution of a fresh program with the "
                  "objective");
        }
      }
    }
  }
  if (solves && (added > 1 || rejected || explicit_solves)) c.nontrivial();
}

void Conic(Case& c) { Run(c, false); }
void Quadratic(Case& c) { Run(c, true); }
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C08";
  p.rule =
      "Random sequences of adding costs (also of wrong sizes), clearing, "
      "adding the constraints, implicit and explicit solves, against a model "
      "keeping the summed cost: each solve is compared with a fresh program "
      "given that objective. Non-trivial: a solve after several costs, a "
      "rejected cost or an explicit objective.";
  p.tests = {{"conic", 30000, 400000, Conic},
             {"quadratic", 15000, 200000, Quadratic}};
  return pbt::Main(argc, argv, p);
}
