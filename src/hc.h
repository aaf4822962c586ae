// Independent model of matrices over the reals, complex numbers, quaternions
// and octonions: scalar multiplication table, entrywise matrix products, the
// real embedding (associative algebras) and functions of hermitian matrices.
#pragma once
#include "gen.h"

namespace hc {
using Eigen::MatrixXd;
using Eigen::VectorXd;

// e_i e_j = Sign(i, j) e_{i xor j}.  Lines (a, b, c) of the Fano plane with
// e_a e_b = e_c, cyclically.
inline int Sign(int i, int j) {
  static int table[8][8];
  static bool ready = false;
  if (!ready) {
    const int lines[7][3] = {{1, 3, 2}, {1, 5, 4}, {1, 6, 7}, {2, 6, 4},
                             {2, 7, 5}, {3, 5, 6}, {3, 7, 4}};
    for (int a = 0; a < 8; a++) {
      for (int b = 0; b < 8; b++) table[a][b] = 0;
    }
    for (int a = 0; a < 8; a++) table[0][a] = table[a][0] = 1;
    for (int a = 1; a < 8; a++) table[a][a] = -1;
    for (auto& l : lines) {
      for (int k = 0; k < 3; k++) {
        table[l[k]][l[(k + 1) % 3]] = 1;
        table[l[(k + 1) % 3]][l[k]] = -1;
      }
    }
    ready = true;
  }
  return table[i][j];
}

struct HC {
  int d = 1;
  std::vector<MatrixXd> m;
  HC() {}
  HC(int d_, int r, int c) : d(d_), m(d_, MatrixXd::Zero(r, c)) {}
  int rows() const { return m[0].rows(); }
  int cols() const { return m[0].cols(); }
};

inline HC Identity(int d, int n) {
  HC x(d, n, n);
  x.m[0].setIdentity();
  return x;
}
inline HC operator+(const HC& a, const HC& b) {
  HC z = a;
  for (int i = 0; i < a.d; i++) z.m[i] += b.m[i];
  return z;
}
inline HC operator*(double s, const HC& a) {
  HC z = a;
  for (auto& x : z.m) x *= s;
  return z;
}
inline HC operator-(const HC& a, const HC& b) { return a + (-1.0) * b; }
inline HC operator*(const HC& a, const HC& b) {
  HC z(a.d, a.rows(), b.cols());
  for (int i = 0; i < a.d; i++)
    for (int j = 0; j < a.d; j++)
      z.m[i ^ j] += double(Sign(i, j)) * (a.m[i] * b.m[j]);
  return z;
}
inline HC Conj(const HC& a) {
  HC z(a.d, a.cols(), a.rows());
  z.m[0] = a.m[0].transpose();
  for (int i = 1; i < a.d; i++) z.m[i] = -a.m[i].transpose();
  return z;
}
inline HC Jordan(const HC& a, const HC& b) { return .5 * (a * b + b * a); }
inline HC Quad(const HC& x, const HC& y) {
  return 2.0 * Jordan(x, Jordan(x, y)) - Jordan(Jordan(x, x), y);
}
inline double Inner(const HC& a, const HC& b) {
  double s = 0;
  for (int i = 0; i < a.d; i++) s += a.m[i].cwiseProduct(b.m[i]).sum();
  return s;
}
inline double Diff(const HC& a, const HC& b) {
  double e = 0;
  for (int i = 0; i < a.d; i++) e = std::max(e, gen::Diff(a.m[i], b.m[i]));
  return e;
}
inline double Norm(const HC& a) { return std::sqrt(Inner(a, a)); }

// Left-regular representation, valid for d <= 4.
inline MatrixXd Embed(const HC& a) {
  int r = a.rows(), c = a.cols(), d = a.d;
  MatrixXd E = MatrixXd::Zero(d * r, d * c);
  for (int i = 0; i < d; i++)
    for (int j = 0; j < d; j++)
      E.block((i ^ j) * r, j * c, r, c) += double(Sign(i, j)) * a.m[i];
  return E;
}

inline HC Matrix(pbt::Case& c, int d, int r, int k) {
  HC x(d, r, k);
  for (auto& m : x.m) m = gen::Matrix(c, r, k);
  return x;
}
inline HC Hermitian(pbt::Case& c, int d, int n) {
  HC x = Matrix(c, d, n, n);
  return .5 * (x + Conj(x));
}

// Sorted eigenvalues of a hermitian matrix: from the embedding for d <= 4, and
// for octonions (n <= 3) from the power sums.
inline VectorXd Eigenvalues(const HC& x) {
  int n = x.rows();
  VectorXd ev(n);
  if (x.d <= 4) {
    VectorXd e = gen::Eigenvalues(Embed(x));
    for (int i = 0; i < n; i++) ev(i) = e(i * x.d);
    return ev;
  }
  double p1 = x.m[0].trace();
  if (n == 1) {
    ev(0) = p1;
  } else if (n == 2) {
    double p2 = Inner(x, x);
    double disc = std::sqrt(std::max(0.0, 2 * p2 - p1 * p1));
    ev << (p1 - disc) / 2, (p1 + disc) / 2;
  } else {
    // Trigonometric solution for the deviator, three real roots.
    HC dev = x - (p1 / 3) * Identity(x.d, 3);
    double q2 = Inner(dev, dev), q3 = Inner(Jordan(dev, dev), dev);
    double r = std::sqrt(std::max(q2, 0.0) / 6);
    double cs = r > 0 ? q3 / 6 / (r * r * r) : 0;
    cs = std::max(-1.0, std::min(1.0, cs));
    double phi = std::acos(cs) / 3;
    for (int k = 0; k < 3; k++)
      ev(k) = p1 / 3 + 2 * r * std::cos(phi + 2 * M_PI * (k + 1) / 3);
    std::sort(ev.data(), ev.data() + 3);
  }
  return ev;
}

// f(x) for hermitian x with distinct eigenvalues, by Lagrange interpolation in
// the (power associative) Jordan algebra.
template <typename F>
HC Function(const HC& x, F f) {
  int n = x.rows();
  VectorXd ev = Eigenvalues(x);
  HC y(x.d, n, n);
  for (int i = 0; i < n; i++) {
    HC p = Identity(x.d, n);
    for (int j = 0; j < n; j++) {
      if (j == i) continue;
      p = (1.0 / (ev(i) - ev(j))) *
          Jordan(p, x - ev(j) * Identity(x.d, n));
    }
    y = y + f(ev(i)) * p;
  }
  return y;
}
inline double MinGap(const VectorXd& ev) {
  double g = 1e300;
  for (int i = 0; i + 1 < ev.size(); i++) g = std::min(g, ev(i + 1) - ev(i));
  return g;
}
inline std::string Str(const HC& x) {
  std::string s = "(";
  for (int i = 0; i < x.d; i++) s += (i ? ", " : "") + gen::Str(x.m[i]);
  return s + ")";
}
}  // namespace hc
