// Generators of dense data, drawn from a pbt::Case, and small numeric helpers.
#pragma once
#include <algorithm>
#include <cmath>
#include <limits>
#include <string>
#include <vector>

#include <Eigen/Dense>

#include "pbt.h"

namespace gen {
using Eigen::MatrixXd;
using Eigen::VectorXd;
using pbt::Case;

inline VectorXd Vector(Case& c, int n) {
  VectorXd v(n);
  for (int i = 0; i < n; i++) v(i) = c.unit();
  return v;
}
inline MatrixXd Matrix(Case& c, int r, int k) {
  MatrixXd m(r, k);
  for (int j = 0; j < k; j++)
    for (int i = 0; i < r; i++) m(i, j) = c.unit();
  return m;
}
inline MatrixXd Symmetric(Case& c, int n) {
  MatrixXd m(n, n);
  for (int j = 0; j < n; j++)
    for (int i = 0; i <= j; i++) m(i, j) = m(j, i) = c.unit();
  return m;
}
// Product of Householder reflections, orthogonal to rounding.
inline MatrixXd Orthogonal(Case& c, int n, int reflections = 3) {
  MatrixXd q = MatrixXd::Identity(n, n);
  for (int k = 0; k < reflections && n > 1; k++) {
    VectorXd v = Vector(c, n);
    double s = v.squaredNorm();
    if (s < 1e-6) continue;
    q = q - (2.0 / s) * (q * v) * v.transpose();
  }
  return q;
}
// Symmetric with eigenvalues in [lo, hi].
inline MatrixXd SymmetricWithSpectrum(Case& c, int n, double lo, double hi) {
  MatrixXd q = Orthogonal(c, n);
  VectorXd d(n);
  for (int i = 0; i < n; i++) d(i) = c.real(lo, hi);
  MatrixXd m = q * d.asDiagonal() * q.transpose();
  return (m + m.transpose()) * .5;
}
inline MatrixXd PositiveDefinite(Case& c, int n, double lo = .3,
                                 double hi = 3) {
  return SymmetricWithSpectrum(c, n, lo, hi);
}

inline VectorXd Eigenvalues(const MatrixXd& m) {
  Eigen::SelfAdjointEigenSolver<MatrixXd> es((m + m.transpose()) * .5,
                                             Eigen::EigenvaluesOnly);
  return es.eigenvalues();
}
inline MatrixXd SymFunction(const MatrixXd& m, double (*f)(double)) {
  Eigen::SelfAdjointEigenSolver<MatrixXd> es((m + m.transpose()) * .5);
  VectorXd d = es.eigenvalues();
  for (int i = 0; i < d.size(); i++) d(i) = f(d(i));
  return es.eigenvectors() * d.asDiagonal() * es.eigenvectors().transpose();
}
inline double Exp(double x) { return std::exp(x); }
inline double SqrtAbs(double x) { return std::sqrt(std::fabs(x)); }

inline bool Finite(const MatrixXd& m) { return m.allFinite(); }
inline double MaxAbs(const MatrixXd& m) {
  return m.size() ? m.cwiseAbs().maxCoeff() : 0;
}
inline double Diff(const MatrixXd& a, const MatrixXd& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols())
    return std::numeric_limits<double>::infinity();
  if (!a.size()) return 0;
  if (!a.allFinite() || !b.allFinite())
    return std::numeric_limits<double>::infinity();
  return (a - b).cwiseAbs().maxCoeff();
}
template <typename T>
std::string Str(const std::vector<T>& v) {
  std::ostringstream o;
  o << "{";
  for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i];
  o << "}";
  return o.str();
}
inline std::string Str(const MatrixXd& m) {
  std::ostringstream o;
  o.precision(6);
  Eigen::IOFormat f(6, Eigen::DontAlignCols, " ", "; ", "", "", "[", "]");
  o << m.format(f);
  return o.str();
}
}  // namespace gen
