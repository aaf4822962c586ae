// Model of the symmetric cones, independent of the code: elements are
// coordinate vectors, and inner product, quadratic representation, spectrum
// and spectral functions follow the textbook definition of each algebra.
// Probe wraps the real constraint of each cone, appending one extra variable
// per coordinate so that the block the constraint contributes to the Newton
// system reveals its scaling point.
#pragma once
#include <functional>
#include <memory>

#include "conex/dense_lmi_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_constraint.h"
#include "conex/quadratic_cone_constraint.h"
#include "conex/soc_constraint.h"
#include "hc.h"

namespace cones {
using Eigen::MatrixXd;
using Eigen::VectorXd;
using pbt::Case;

enum Kind { kLinear, kSoc, kQuad, kQuadMetric, kDense, kReal, kComplex,
            kQuaternion, kOctonion };
inline const char* Name(int k) {
  static const char* n[] = {"linear", "soc", "quadratic", "metric", "dense-lmi",
                            "real", "complex", "quaternion", "octonion"};
  return n[k];
}

struct Model {
  int kind, n;  // n: rows, dimension of the vector part, or order.
  MatrixXd M;   // Metric of the vector part.
  int d = 1;    // Hypercomplex dimension.
  int dim() const {
    if (kind == kLinear) return n;
    if (Vectorial()) return n + 1;
    return n * (n + 1) / 2 + (d - 1) * (n * (n - 1) / 2);
  }
  bool Vectorial() const { return kind >= kSoc && kind <= kQuadMetric; }
  bool Matrixial() const { return kind >= kDense; }
  int rank() const { return Vectorial() ? 2 : n; }

  hc::HC Mat(const VectorXd& x) const {
    hc::HC m(d, n, n);
    int p = 0;
    for (int j = 0; j < n; j++)
      for (int i = 0; i <= j; i++) m.m[0](i, j) = m.m[0](j, i) = x(p++);
    for (int k = 1; k < d; k++)
      for (int j = 0; j < n; j++)
        for (int i = 0; i < j; i++) {
          m.m[k](i, j) = x(p);
          m.m[k](j, i) = -x(p++);
        }
    return m;
  }
  VectorXd Vec(const hc::HC& m) const {
    VectorXd x(dim());
    int p = 0;
    for (int j = 0; j < n; j++)
      for (int i = 0; i <= j; i++) x(p++) = .5 * (m.m[0](i, j) + m.m[0](j, i));
    for (int k = 1; k < d; k++)
      for (int j = 0; j < n; j++)
        for (int i = 0; i < j; i++)
          x(p++) = .5 * (m.m[k](i, j) - m.m[k](j, i));
    return x;
  }
  VectorXd Identity() const {
    if (kind == kLinear) return VectorXd::Ones(n);
    if (Vectorial()) return VectorXd::Unit(n + 1, 0);
    return Vec(hc::Identity(d, n));
  }
  double VInner(const VectorXd& x, const VectorXd& y) const {
    return x(0) * y(0) + x.tail(n).dot(M * y.tail(n));
  }
  double Inner(const VectorXd& x, const VectorXd& y) const {
    if (kind == kLinear) return x.dot(y);
    if (Vectorial()) return 2 * VInner(x, y);
    return hc::Inner(Mat(x), Mat(y));
  }
  double Norm(const VectorXd& x) const {
    return std::sqrt(std::max(0.0, Inner(x, x)));
  }
  VectorXd Q(const VectorXd& w, const VectorXd& x) const {
    if (kind == kLinear) return w.cwiseProduct(w).cwiseProduct(x);
    if (Vectorial()) {
      double det = w(0) * w(0) - w.tail(n).dot(M * w.tail(n));
      VectorXd z = 2 * VInner(w, x) * w + det * x;
      z(0) -= 2 * det * x(0);
      return z;
    }
    return Vec(hc::Quad(Mat(w), Mat(x)));
  }
  VectorXd Eigenvalues(const VectorXd& x) const {
    if (kind == kLinear) return x;
    if (Vectorial()) {
      double r = std::sqrt(std::max(0.0, x.tail(n).dot(M * x.tail(n))));
      return Eigen::Vector2d(x(0) - r, x(0) + r);
    }
    return hc::Eigenvalues(Mat(x));
  }
  VectorXd Fn(const VectorXd& x, const std::function<double(double)>& f) const {
    if (kind == kLinear) {
      VectorXd y = x;
      for (int i = 0; i < n; i++) y(i) = f(x(i));
      return y;
    }
    if (Vectorial()) {
      VectorXd e = Eigenvalues(x);
      double r = (e(1) - e(0)) / 2;
      VectorXd y = VectorXd::Zero(n + 1);
      if (r > 0) y.tail(n) = (f(e(1)) - f(e(0))) / (2 * r) * x.tail(n);
      y(0) = (f(e(0)) + f(e(1))) / 2;
      return y;
    }
    hc::HC m = Mat(x);
    if (d <= 4) {
      MatrixXd E = hc::Embed(m);
      Eigen::SelfAdjointEigenSolver<MatrixXd> es((E + E.transpose()) * .5);
      VectorXd v = es.eigenvalues();
      for (int i = 0; i < v.size(); i++) v(i) = f(v(i));
      MatrixXd F = es.eigenvectors() * v.asDiagonal() *
                   es.eigenvectors().transpose();
      // Row/column 0 block of the embedding holds the components.
      hc::HC y(d, n, n);
      for (int i = 0; i < d; i++) y.m[i] = F.block(i * n, 0, n, n);
      return Vec(y);
    }
    VectorXd ev = hc::Eigenvalues(m);
    if (ev(n - 1) - ev(0) < 1e-7) return f(ev.mean()) * Identity();
    return Vec(hc::Function(m, f));
  }
  // Whether Fn is accurate at x.
  bool Regular(const VectorXd& x) const {
    if (kind != kOctonion) return true;
    VectorXd ev = Eigenvalues(x);
    return ev(n - 1) - ev(0) < 1e-7 || hc::MinGap(ev) > .02 * ev.cwiseAbs().maxCoeff();
  }
  // A random element with spectrum in [lo, hi], whose eigenvalues are kept
  // apart for octonions.
  VectorXd Random(Case& c, double lo, double hi) const {
    int N = dim();
    for (int tries = 0; tries < 4; tries++) {
      VectorXd x = gen::Vector(c, N);
      VectorXd e = Eigenvalues(x);
      std::vector<std::pair<double, double>> map;
      if (kind == kOctonion && hc::MinGap(e) < .05) continue;
      std::vector<double> t(e.size());
      for (auto& v : t) v = c.real(lo, hi);
      if (kind == kOctonion) {
        std::sort(t.begin(), t.end());
        bool ok = true;
        for (size_t i = 0; i + 1 < t.size(); i++)
          ok = ok && t[i + 1] - t[i] > .05 * (hi - lo);
        if (!ok) continue;
      }
      if (kind == kLinear)
        return Eigen::Map<VectorXd>(t.data(), t.size());
      // Interpolate f with f(e_i) = t_i; ties are impossible to separate.
      return Fn(x, [&](double v) {
        int best = 0;
        for (int i = 1; i < e.size(); i++)
          if (std::fabs(e(i) - v) < std::fabs(e(best) - v)) best = i;
        return t[best];
      });
    }
    return (.5 * (lo + hi)) * Identity();
  }
};

// The real constraint behind a uniform interface.
struct Probe {
  virtual ~Probe() {}
  virtual void Reset() = 0;
  virtual void Prepare(const conex::StepOptions& o, const conex::Ref& y,
                       conex::StepInfo* i) = 0;
  virtual bool Take(const conex::StepOptions& o) = 0;
  virtual void Summary(const conex::Ref& y, double k,
                       conex::WeightedSlackEigenvalues* p) = 0;
  virtual void Schur(bool init, conex::SchurComplementSystem* s) = 0;
  virtual int RankOf() = 0;
  virtual int Variables() = 0;
};

template <typename T>
struct ProbeOf : Probe {
  std::unique_ptr<T> o;
  std::vector<double> raw;
  template <typename... A>
  ProbeOf(A&&... a) : o(new T(std::forward<A>(a)...)) {
    int sz = SizeOf(*o->workspace());
    raw.assign(sz + 8, std::numeric_limits<double>::quiet_NaN());
    auto p = reinterpret_cast<uintptr_t>(raw.data());
    Initialize(o->workspace(),
               reinterpret_cast<double*>((p + 31) / 32 * 32));
  }
  void Reset() override { SetIdentity(o.get()); }
  void Prepare(const conex::StepOptions& s, const conex::Ref& y,
               conex::StepInfo* i) override {
    PrepareStep(o.get(), s, y, i);
  }
  bool Take(const conex::StepOptions& s) override {
    return TakeStep(o.get(), s);
  }
  void Summary(const conex::Ref& y, double k,
               conex::WeightedSlackEigenvalues* p) override {
    GetWeightedSlackEigenvalues(o.get(), y, k, p);
  }
  void Schur(bool init, conex::SchurComplementSystem* s) override {
    ConstructSchurComplementSystem(o.get(), init, s);
  }
  int RankOf() override { return Rank(*o); }
  int Variables() override { return o->number_of_variables(); }
};

template <typename T>
struct HermitianProbe : ProbeOf<conex::HermitianPsdConstraint<T>> {
  using H = conex::HermitianPsdConstraint<T>;
  using ProbeOf<H>::ProbeOf;
};

template <typename T>
typename T::Matrix ToCode(const hc::HC& x) {
  typename T::Matrix m = T::Zero(x.rows(), x.cols());
  for (int i = 0; i < x.d; i++) m.at(i) = x.m[i];
  return m;
}

template <typename T>
std::unique_ptr<Probe> MakeHermitian(const Model& m,
                                     const std::vector<VectorXd>& A,
                                     const VectorXd& c) {
  std::vector<typename T::Matrix> a;
  for (auto& x : A) a.push_back(ToCode<T>(m.Mat(x)));
  typename T::Matrix cc = ToCode<T>(m.Mat(c));
  return std::unique_ptr<Probe>(
      new ProbeOf<conex::HermitianPsdConstraint<T>>(m.n, a, cc));
}

inline std::unique_ptr<Probe> Make(const Model& m,
                                   const std::vector<VectorXd>& A,
                                   const VectorXd& c) {
  std::unique_ptr<Probe> p;
  if (!m.Matrixial()) {
    MatrixXd a(m.dim(), A.size());
    for (size_t i = 0; i < A.size(); i++) a.col(i) = A[i];
    MatrixXd cc = c;
    if (m.kind == kLinear) p.reset(new ProbeOf<conex::LinearConstraint>(a, cc));
    if (m.kind == kSoc) p.reset(new ProbeOf<conex::SOCConstraint>(a, cc));
    if (m.kind == kQuad)
      p.reset(new ProbeOf<conex::QuadraticConstraint>(a, cc));
    if (m.kind == kQuadMetric)
      p.reset(new ProbeOf<conex::QuadraticConstraint>(m.M, a, cc));
    return p;
  }
  switch (m.kind) {
    case kDense: {
      std::vector<MatrixXd> a;
      for (auto& x : A) a.push_back(m.Mat(x).m[0]);
      p.reset(new ProbeOf<conex::DenseLMIConstraint>(m.n, a, m.Mat(c).m[0]));
      return p;
    }
    case kReal: return MakeHermitian<conex::Real>(m, A, c);
    case kComplex: return MakeHermitian<conex::Complex>(m, A, c);
    case kQuaternion: return MakeHermitian<conex::Quaternions>(m, A, c);
    default: return MakeHermitian<conex::Octonions>(m, A, c);
  }
}

// Newton system storage filled with a pattern.
struct Sys {
  std::vector<double> raw;
  conex::SchurComplementSystem s;
  Sys(int m, double fill) : s(m) {
    int sz = SizeOf(s);
    raw.assign(sz + 8, fill);
    auto p = reinterpret_cast<uintptr_t>(raw.data());
    Initialize(&s, reinterpret_cast<double*>((p + 31) / 32 * 32));
    s.inner_product_of_c_and_Qc = s.inner_product_of_w_and_c = fill;
  }
};

inline Model RandomModel(Case& c, bool octonions) {
  Model m;
  m.kind = int(c.draw(octonions ? 9 : 8));
  switch (m.kind) {
    case kLinear: m.n = c.integer(1, 6); break;
    case kSoc:
    case kQuad:
    case kQuadMetric: m.n = c.integer(1, 5); break;
    case kDense:
    case kReal: m.n = c.integer(1, 6); break;
    case kComplex: m.n = c.integer(1, 4); m.d = 2; break;
    case kQuaternion: m.n = c.integer(1, 3); m.d = 4; break;
    default: m.n = c.integer(1, 3); m.d = 8; break;
  }
  m.M = MatrixXd::Identity(m.n, m.n);
  if (m.kind == kQuadMetric) {
    m.M = gen::PositiveDefinite(c, m.n);
  }
  return m;
}

// A constraint with `users` random columns, then one per coordinate, driven
// through rounds of steps with a known target.
struct Rig {
  Model m;
  std::vector<VectorXd> A;
  VectorXd c, w;  // Affine term and the scaling point, as last probed.
  int users;
  std::unique_ptr<Probe> p;
  std::vector<double> yraw;

  Rig(Case& cs, const Model& model) : m(model) {
    users = cs.integer(0, 3);
    int N = m.dim();
    for (int i = 0; i < users; i++) A.push_back(gen::Vector(cs, N));
    if (users > 1 && cs.chance(1, 6)) A[1] = A[0];
    if (users > 0 && cs.chance(1, 8)) A[0].setZero();
    for (int i = 0; i < N; i++) A.push_back(VectorXd::Unit(N, i));
    c = gen::Vector(cs, N);
    if (cs.chance(1, 6)) c.setZero();
    if (cs.chance(1, 3)) c += 2 * m.Identity();
    p = Make(m, A, c);
    p->Reset();
    cs.log() << Name(m.kind) << " n=" << m.n << " users=" << users << "\n";
  }
  int vars() const { return int(A.size()); }
  conex::Ref Y(const VectorXd& y) {
    yraw.assign(y.size() + 8, 0);
    auto q = reinterpret_cast<uintptr_t>(yraw.data());
    double* d = reinterpret_cast<double*>((q + 31) / 32 * 32);
    for (int i = 0; i < y.size(); i++) d[i] = y(i);
    return conex::Ref(d, y.size(), 1);
  }
  VectorXd Apply(const VectorXd& y) const {
    VectorXd s = VectorXd::Zero(m.dim());
    for (int i = 0; i < vars(); i++) s += y(i) * A[i];
    return s;
  }
  // y with A y - k c = minus_s, random in the user part.
  VectorXd Solve(Case& cs, const VectorXd& minus_s, double k) {
    VectorXd y = VectorXd::Zero(vars());
    for (int i = 0; i < users; i++) y(i) = cs.unit();
    y.tail(m.dim()) = minus_s + k * c - Apply(y);
    return y;
  }
  // The scaling point from the system of the appended columns: their inner
  // products with w, in the coordinates' Gram matrix.
  VectorXd ProbeW(conex::SchurComplementSystem* s = nullptr) {
    Sys mine(vars(), 0);
    if (!s) {
      p->Schur(true, &mine.s);
      s = &mine.s;
    }
    int N = m.dim();
    VectorXd g(N);
    for (int i = 0; i < N; i++) g(i) = s->AW(users + i, 0);
    return Gram().ldlt().solve(g);
  }
  MatrixXd Gram() const {
    int N = m.dim();
    MatrixXd G(N, N);
    for (int i = 0; i < N; i++)
      for (int j = 0; j < N; j++)
        G(i, j) = m.Inner(VectorXd::Unit(N, i), VectorXd::Unit(N, j));
    return G;
  }
  double Cond() const {
    VectorXd e = m.Eigenvalues(w);
    return e.maxCoeff() / e.minCoeff();
  }
};
}  // namespace cones
