// Small property-based-testing engine used by every check in /verif.
//
// A property is a function  void(Case&)  that draws all its choices from the
// Case's choice tape and throws pbt::Fail when the property is broken.  The
// engine
//   * derives every case from (VERIF_SEED, property, sub-test, case index),
//   * runs cases in forked workers, so that a crash, a sanitizer report, an
//     uncaught exception or runaway CPU use in the code under test is an
//     observed failure of one identified case,
//   * replays a failing tape three times, shrinks it (block deletion, zeroing,
//     binary reduction of single choices) and writes a replay file,
//   * counts cases, labels and distinct non-trivial tapes for the evidence.
#pragma once
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

// Fills memory allocated from here on with the byte given, until the case ends.
void FillMemory(unsigned char byte);


struct Fail {
  std::string msg;
};
struct Discard {};

class Case {
 public:
  // Fresh case.
  Case(uint64_t seed, int size) : state_(seed), size_(size) {}
  // Replayed case.
  Case(const std::vector<uint64_t>& tape, int size)
      : replay_(true), in_(tape), size_(size) {}

  // Uniform choice in [0, n).
  uint64_t draw(uint64_t n) {
    if (n <= 1) n = 1;
    uint64_t v;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      pos_++;
      if (v >= n) v = n - 1;
    } else {
      v = next() % n;
    }
    tape_.push_back(v);
    Mirror(v);
    return v;
  }
  // Inclusive range; shrinks towards lo.
  int integer(int lo, int hi) {
    return hi <= lo ? lo : lo + static_cast<int>(draw(uint64_t(hi - lo) + 1));
  }
  bool boolean() { return draw(2) == 1; }
  // True with probability num/den; shrinks towards false.
  bool chance(int num, int den) {
    return static_cast<int>(draw(den)) >= den - num;
  }
  // Real in [-1, 1] on a 2^-20 grid; shrinks towards 0.
  double unit() {
    uint64_t v = draw(2097153);
    double m = double((v + 1) / 2) / 1048576.0;
    return (v & 1) ? m : -m;
  }
  // Real in [lo, hi]; shrinks towards lo.
  double real(double lo, double hi) {
    return lo + (hi - lo) * (double(draw(1048577)) / 1048576.0);
  }
  // Small integer valued real in [-k, k]; shrinks towards 0.
  double smallint(int k) {
    uint64_t v = draw(2 * k + 1);
    double m = double((v + 1) / 2);
    return (v & 1) ? m : -m;
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size())];
  }
  std::vector<int> permutation(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    for (int i = 0; i + 1 < n; i++) {
      int j = i + static_cast<int>(draw(n - i));
      std::swap(p[i], p[j]);
    }
    return p;
  }
  // A k-subset of {0..n-1} in random order.
  std::vector<int> subset(int n, int k) {
    std::vector<int> p = permutation(n);
    p.resize(k);
    return p;
  }

  int size() const { return size_; }
  const std::vector<uint64_t>& tape() const { return tape_; }

  // Marks the case as non-trivial by the property's stated rule.
  void nontrivial() { nontrivial_ = true; }
  bool is_nontrivial() const { return nontrivial_; }
  void label(const std::string& s) { labels_.push_back(s); }
  const std::vector<std::string>& labels() const { return labels_; }
  std::ostream& log() { return log_; }
  std::string description() const { return log_.str(); }

  [[noreturn]] void fail(const std::string& m) { throw Fail{m}; }
  void require(bool ok, const std::string& m) {
    if (!ok) throw Fail{m};
  }
  // |value| <= bound, and value is a number.
  void small(double value, double bound, const std::string& what) {
    if (!(value <= bound && value >= -bound)) {
      std::ostringstream o;
      o.precision(6);
      o << what << ": " << value << " exceeds " << bound;
      throw Fail{o.str()};
    }
  }
  void at_least(double value, double bound, const std::string& what) {
    if (!(value >= bound)) {
      std::ostringstream o;
      o.precision(17);
      o << what << ": " << value << " is below " << bound;
      throw Fail{o.str()};
    }
  }
  void at_most(double value, double bound, const std::string& what) {
    at_least(-value, -bound, what + " (negated)");
  }
  [[noreturn]] void discard() { throw Discard{}; }
  // A violation with a stable signature.  If known_findings.txt lists
  // (property, signature) it is counted and reported as KNOWN-FINDING and the
  // case goes on; otherwise it fails the case.
  void finding(const std::string& signature, const std::string& what);
  const std::vector<std::string>& known() const { return known_; }

 private:
  static void Mirror(uint64_t v);
  uint64_t next() {
    uint64_t z = (state_ += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t state_ = 0;
  bool replay_ = false;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  std::vector<uint64_t> tape_;
  int size_;
  bool nontrivial_ = false;
  std::vector<std::string> labels_;
  std::vector<std::string> known_;
  std::ostringstream log_;
};

struct SubTest {
  std::string name;
  int quick;     // Number of cases in the quick tier.
  int thorough;  // Number of cases in the thorough tier.
  std::function<void(Case&)> run;
};

struct Property {
  std::string id;
  std::string rule;  // How cases are made and what makes one non-trivial.
  std::vector<SubTest> tests;
  std::vector<std::string> assumptions;
};

// Entry point; every check's main() calls it.
int Main(int argc, char** argv, const Property& p);

}  // namespace pbt
