// A sparse system made of blocks on variable subsets and of equality
// constraints with multipliers, held in the library's constraint manager.
#pragma once
#include "cliques.h"
#include "conex/constraint_manager.h"
#include "conex/equality_constraint.h"
#include "conex/kkt_solver.h"

namespace kkt {
using gen::MatrixXd;
using gen::VectorXd;
using pbt::Case;

struct BlockData {
  MatrixXd G;  // symmetric
  VectorXd AW, AQc;
  double wc = 0, cQc = 0;
  double upper = 0;  // what the block writes above the diagonal
};

class Block : public conex::SupernodalAssemblerBase {
 public:
  void SetDenseData() override {
    MatrixXd g = d.G;
    for (int j = 0; j < g.cols(); j++)
      for (int i = 0; i < j; i++) g(i, j) = d.upper;
    submatrix_data_.G = g;
    submatrix_data_.AW = d.AW;
    submatrix_data_.AQc = d.AQc;
    submatrix_data_.inner_product_of_w_and_c = d.wc;
    submatrix_data_.inner_product_of_c_and_Qc = d.cQc;
  }
  BlockData d;
};

class Container {
 public:
  Container(const BlockData& x, int m) : ptr(&block) {
    block.d = x;
    Init(m);
  }
  Container(const conex::EqualityConstraints& x, int m)
      : eq(x), constraint(std::make_unique<conex::Constraint>(&eq)),
        eq_assembler(m, constraint.get()), ptr(&eq_assembler), equality(true) {
    Init(m);
  }
  Container(const Container&) = delete;

  conex::EqualityConstraints eq;
  std::unique_ptr<conex::Constraint> constraint;
  Block block;
  conex::SupernodalAssembler eq_assembler;
  conex::SupernodalAssemblerBase* ptr;
  bool equality = false;

 private:
  void Init(int m) {
    ptr->SetNumberOfVariables(m);
    int size = SizeOf(*ptr->GetWorkspace());
    memory.resize(size + 8);
    memory.setConstant(std::numeric_limits<double>::quiet_NaN());
    double* p = memory.data();
    while (reinterpret_cast<uintptr_t>(p) % 64) p++;
    Initialize(ptr->GetWorkspace(), p);
  }
  VectorXd memory;
};

struct Item {
  bool equality = false;
  std::vector<int> vars;  // primal variables
  MatrixXd A, b;
  BlockData block;
};

struct System {
  int n = 0, N = 0;
  std::vector<Item> items;
  std::unique_ptr<conex::ConstraintManager<Container>> prog;

  void Declare() {
    prog = std::make_unique<conex::ConstraintManager<Container>>();
    prog->SetNumberOfVariables(n);
    for (auto& it : items) {
      bool bad;
      if (it.equality)
        bad = prog->AddEqualityConstraint(conex::EqualityConstraints(it.A, it.b), it.vars);
      else
        bad = prog->AddConstraint(it.block, it.vars);
      if (bad) throw pbt::Fail{"a valid block was rejected"};
    }
    N = prog->SizeOfKKTSystem();
  }
  std::vector<conex::SupernodalAssemblerBase*> Pointers() {
    std::vector<conex::SupernodalAssemblerBase*> y;
    for (auto& c : prog->eqs) y.push_back(c.ptr);
    return y;
  }
  // Pushes changed block data into the manager's copies.
  void Update() {
    int i = 0;
    for (auto& c : prog->eqs) {
      if (items[i].equality) {
        c.eq.A_ = items[i].A;
        c.eq.b_ = items[i].b;
      } else {
        c.block.d = items[i].block;
      }
      i++;
    }
  }
  // The dense sum.
  void Dense(MatrixXd* K, VectorXd* AW, VectorXd* AQc, double* wc, double* cQc) {
    *K = MatrixXd::Zero(N, N);
    *AW = *AQc = VectorXd::Zero(N);
    *wc = *cQc = 0;
    int dual = n;
    for (auto& it : items) {
      int k = it.vars.size();
      if (it.equality) {
        for (int r = 0; r < it.A.rows(); r++) {
          for (int j = 0; j < k; j++) {
            (*K)(dual + r, it.vars[j]) += it.A(r, j);
            (*K)(it.vars[j], dual + r) += it.A(r, j);
          }
          (*AQc)(dual + r) += it.b(r, 0);
        }
        dual += it.A.rows();
      } else {
        for (int i = 0; i < k; i++) {
          for (int j = 0; j < k; j++)
            (*K)(it.vars[i], it.vars[j]) += it.block.G(i, j);
          (*AW)(it.vars[i]) += it.block.AW(i);
          (*AQc)(it.vars[i]) += it.block.AQc(i);
        }
        *wc += it.block.wc;
        *cQc += it.block.cQc;
      }
    }
  }
};

// Random block data; `rank` < 0 draws an arbitrary symmetric matrix, otherwise
// a positive semidefinite one of that rank.
inline BlockData RandomBlock(Case& c, int k, int rank, bool integer) {
  BlockData d;
  auto entry = [&] { return integer ? c.smallint(6) : c.unit(); };
  if (rank < 0) {
    d.G = MatrixXd(k, k);
    for (int j = 0; j < k; j++)
      for (int i = j; i < k; i++) d.G(i, j) = d.G(j, i) = entry();
  } else {
    MatrixXd B(k, rank);
    for (int j = 0; j < rank; j++)
      for (int i = 0; i < k; i++) B(i, j) = entry();
    d.G = B * B.transpose();
  }
  d.AW = VectorXd(k);
  d.AQc = VectorXd(k);
  for (int i = 0; i < k; i++) d.AW(i) = entry(), d.AQc(i) = entry();
  d.wc = entry();
  d.cQc = entry();
  d.upper = c.pick<double>({0, std::numeric_limits<double>::quiet_NaN(), 5});
  return d;
}
}  // namespace kkt
