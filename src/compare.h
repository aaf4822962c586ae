// Results of runs that compute the same.
#pragma once
#include "prog.h"

namespace prog {

inline bool Same(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return a == b || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b));
}
inline bool Same(const MatrixXd& a, const MatrixXd& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  // An entry is compared on the scale of the whole.
  double scale = 0;
  for (int i = 0; i < a.size(); i++)
    if (std::isfinite(a.data()[i])) scale = std::max(scale, std::fabs(a.data()[i]));
  for (int i = 0; i < a.size(); i++) {
    double u = a.data()[i], v = b.data()[i];
    if (!Same(u, v) && !(std::fabs(u - v) <= 1e-9 * scale)) return false;
  }
  return true;
}

inline void Compare(Case& c, const Result& a, const Result& b, std::string on) {
  c.require(a.returned == b.returned && a.solved == b.solved &&
                a.primal_infeasible == b.primal_infeasible &&
                a.dual_infeasible == b.dual_infeasible,
            "the status depends on " + on);
  c.require(a.iterations == b.iterations &&
                a.inv_sqrt_mu.size() == b.inv_sqrt_mu.size(),
            "the number of iterations depends on " + on);
  for (size_t i = 0; i < a.inv_sqrt_mu.size(); i++)
    c.require(Same(a.inv_sqrt_mu[i], b.inv_sqrt_mu[i]),
              "the barrier parameters depend on " + on);
  c.require(Same(a.b_scaling, b.b_scaling) && Same(a.c_scaling, b.c_scaling),
            "the scaling depends on " + on);
  c.require(Same(MatrixXd(a.y), MatrixXd(b.y)),
            "the point depends on " + on);
  for (size_t i = 0; i < a.duals.size(); i++)
    c.require(Same(a.duals[i], b.duals[i]),
              "a dual variable depends on " + on);
}

}  // namespace prog
