// C15: the sparse KKT assembly equals the sum of the constraint blocks.
#include "conex/cone_program.h"
#include "conex/linear_constraint.h"
#include "kkt.h"

using namespace conex;
using gen::MatrixXd;
using gen::VectorXd;
using pbt::Case;

namespace {

void Items(Case& c, kkt::System* s, bool integer) {
  std::string kind;
  gen::Cliques sets = gen::CliqueSet(c, 9, 7, &s->n, &kind);
  c.label(kind);
  int multipliers = c.integer(0, 2);  // none, some, many
  for (auto& v : sets) {
    kkt::Item it;
    it.vars = v;
    it.equality = multipliers == 0 ? false : multipliers == 1 ? c.chance(1, 4) : c.boolean();
    int k = v.size();
    if (it.equality) {
      int m = c.integer(1, 3);
      it.A = MatrixXd(m, k);
      it.b = MatrixXd(m, 1);
      for (int i = 0; i < m; i++) {
        for (int j = 0; j < k; j++) it.A(i, j) = integer ? c.smallint(6) : c.unit();
        it.b(i, 0) = integer ? c.smallint(6) : c.unit();
      }
      c.label("with multipliers");
    } else {
      it.block = kkt::RandomBlock(c, k, -1, integer);
    }
    s->items.push_back(it);
    c.log() << (it.equality ? "E" + std::to_string(it.A.rows()) : "B") << gen::Str(v) << " ";
  }
  c.log() << "\n";
}

void Change(Case& c, kkt::System* s, bool integer) {
  for (auto& it : s->items) {
    if (!c.boolean()) continue;
    if (it.equality) {
      for (int i = 0; i < it.A.size(); i++)
        it.A.data()[i] = integer ? c.smallint(6) : c.unit();
      for (int i = 0; i < it.b.size(); i++)
        it.b.data()[i] = integer ? c.smallint(6) : c.unit();
    } else {
      it.block = kkt::RandomBlock(c, it.vars.size(), -1, integer);
    }
  }
}

void Compare(Case& c, kkt::System& s, SupernodalKKTSolver& solver, double tol) {
  MatrixXd K;
  VectorXd AW, AQc;
  double wc, cQc;
  s.Dense(&K, &AW, &AQc, &wc, &cQc);
  VectorXd aw = VectorXd::Constant(s.N, 7), aqc = VectorXd::Constant(s.N, -7);
  double ip = 3;
  switch (c.integer(0, 2)) {
    case 0:
      solver.Assemble(&aw, &aqc, &ip);
      c.small(gen::Diff(aw, AW), tol, "assembled A'w");
      c.small(gen::Diff(aqc, AQc), tol, "assembled A'Q(w)c");
      c.small(ip - wc, tol, "assembled <w,c>");
      break;
    case 1:
      solver.Assemble();
      break;
    default:
      solver.Assemble();
      solver.Assemble(&aw, &aqc, &ip);
      c.small(gen::Diff(aw, AW), tol, "A'w assembled again");
      c.small(gen::Diff(aqc, AQc), tol, "A'Q(w)c assembled again");
      c.small(ip - wc, tol, "<w,c> assembled again");
  }
  MatrixXd M = solver.KKTMatrix();
  c.small(gen::Diff(M, K), tol, "assembled matrix");
}

void Assembly(Case& c) {
  kkt::System s;
  bool integer = c.boolean();
  Items(c, &s, integer);
  s.Declare();
  double tol = integer ? 0 : 1e-14 * s.items.size() * 10;
  if (s.items.size() >= 3 && s.n >= 3) c.nontrivial();
  SupernodalKKTSolver solver(s.prog->cliques, s.prog->dual_vars);
  solver.Bind(s.Pointers());
  int rounds = c.integer(1, 3);
  for (int r = 0; r < rounds; r++) {
    if (r) {
      Change(c, &s, integer);
      s.Update();
    }
    Compare(c, s, solver, tol);
    if (c.chance(1, 3)) {
      solver.Factor();  // Destroys the stored matrix, not the blocks.
      c.label("factored between assemblies");
    }
  }
}

// The same through a program at its starting point w = e, where a linear
// constraint contributes A'A, A'1, A'c, 1'c and c'c.
void AtIdentity(Case& c) {
  kkt::System s;
  Items(c, &s, true);
  Program prog(s.n);
  int dual = 0;
  for (auto& it : s.items) {
    if (it.equality) {
      c.require(!prog.AddConstraint(EqualityConstraints(it.A, it.b), it.vars), "accepted");
      dual += it.A.rows();
    } else {
      int k = it.vars.size(), rows = c.integer(1, 3);
      MatrixXd A(rows, k);
      VectorXd a(rows);
      for (int i = 0; i < A.size(); i++) A.data()[i] = c.smallint(4);
      for (int i = 0; i < rows; i++) a(i) = c.smallint(4);
      c.require(!prog.AddConstraint(LinearConstraint(A, a), it.vars), "accepted");
      it.block.G = A.transpose() * A;
      it.block.AW = A.transpose() * VectorXd::Ones(rows);
      it.block.AQc = A.transpose() * a;
      it.block.wc = a.sum();
      it.block.cQc = a.squaredNorm();
    }
  }
  s.N = s.n + dual;
  if (s.items.size() >= 3 && s.n >= 3) c.nontrivial();
  c.require(prog.kkt_system_manager_.SizeOfKKTSystem() == s.N, "system size");
  MatrixXd K;
  VectorXd AW, AQc;
  double wc, cQc;
  s.Dense(&K, &AW, &AQc, &wc, &cQc);
  int rounds = c.integer(1, 2);
  for (int r = 0; r < rounds; r++) {
    conex::Initialize(prog, SolverConfiguration());
    int again = c.integer(1, 2);
    for (int q = 0; q < again; q++) {
      prog.solver->Assemble();
      AssembleSchurComplementResiduals(&prog.kkt_system_manager_, &prog.sys);
      c.small(gen::Diff(prog.solver->KKTMatrix(), K), 0, "matrix at w = e");
      c.small(gen::Diff(prog.sys.AW, AW), 0, "A'w at w = e");
      c.small(gen::Diff(prog.sys.AQc, AQc), 0, "A'Q(w)c at w = e");
      c.small(prog.sys.inner_product_of_w_and_c - wc, 0, "<w,c> at w = e");
      c.small(prog.sys.inner_product_of_c_and_Qc - cQc, 0, "<c,Q(w)c> at w = e");
    }
    c.small(gen::Diff(GetFeasibleObjective(&prog), .5 * AW.head(s.n)), 0,
            "feasible objective");
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C15";
  p.rule =
      "Random collections of variable sets (trees, cycles, nested, repeated, "
      "disconnected, singletons) in random order and with random variable "
      "order, each carrying a symmetric block or 1 to 3 equality rows with "
      "multipliers; garbage above the diagonal of blocks; repeated assembly "
      "with changed blocks and factorisations in between; non-trivial: three "
      "blocks and three variables or more";
  p.tests = {{"assembly", 150000, 3000000, Assembly},
             {"program", 60000, 1200000, AtIdentity}};
  p.assumptions = {"every variable is in at least one block"};
  return pbt::Main(argc, argv, p);
}
