// Monitoring runtime shared by all harnesses: seeded workloads, named
// monitors with event counters, case isolation, breadcrumbs for crashes.
#pragma once
#include <lf/base/base.h>

#include <Eigen/Dense>
#include <cmath>
#include <complex>
#include <cstdint>
#include <exception>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace mon {

using u64 = std::uint64_t;

inline u64 mix(u64 x) {
  x += 0x9E3779B97F4A7C15ULL;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31);
}
u64 hash_str(const std::string& s);
inline u64 hcomb(u64 a, u64 b) { return mix(a * 31 + mix(b)); }

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() {
    s += 0x9E3779B97F4A7C15ULL;
    u64 x = s;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
  }
  // uniform integer in [a,b]
  int uni(int a, int b) {
    if (b <= a) return a;
    return a + static_cast<int>(next() % static_cast<u64>(b - a + 1));
  }
  double real(double a = 0.0, double b = 1.0) {
    return a + (b - a) * (static_cast<double>(next() >> 11) * 0x1.0p-53);
  }
  bool coin(double p = 0.5) { return real() < p; }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[static_cast<std::size_t>(uni(0, static_cast<int>(v.size()) - 1))];
  }
  template <class T>
  void shuffle(std::vector<T>& v) {
    for (int i = static_cast<int>(v.size()) - 1; i > 0; --i) {
      std::swap(v[i], v[uni(0, i)]);
    }
  }
  std::vector<int> perm(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; ++i) p[i] = i;
    shuffle(p);
    return p;
  }
};

// Thrown by the replacement of lf::base::AssertionFailed.
struct AssertFired : std::exception {
  std::string expr, file, msg, full;
  long line = 0;
  const char* what() const noexcept override { return full.c_str(); }
};
// Thrown by MON_REQUIRE to leave the current case (violation recorded).
struct CaseAborted {};
// Thrown to discard a case (workload could not be formed).
struct CaseDiscarded {
  std::string why;
};

enum class Tier { quick, thorough };

struct Env {
  Tier tier = Tier::quick;
  u64 seed = 1;
  int shard = 0, nshards = 1;
  std::string prop;     // property being checked
  std::string scratch;  // private scratch dir of this process
  bool replay = false;  // verbose
};
Env& env();
inline bool thorough() { return env().tier == Tier::thorough; }

// --- monitors ---------------------------------------------------------------
void event(const std::string& key, u64 n = 1);
// report a violation (does not throw)
void violation(const std::string& key, const std::string& msg);
// Register a distinct state signature observed
void sig(u64 h);
inline void sig(const std::string& s) { sig(hash_str(s)); }
// record a short textual sample of what was observed (kept: first few)
void sample(const std::string& s);
// keys that must have been observed for the run to count
void expect(std::initializer_list<const char*> keys);
// the same for the runs of one property only
void expect(const std::string& prop, std::initializer_list<const char*> keys);
// While one exists in a thread, its events and violations go there without any
// synchronisation with other threads (a lock would hide races); published later.
struct ThreadLog {
  std::map<std::string, u64> events;
  std::vector<std::pair<std::string, std::string>> viols;
  ThreadLog();
  ~ThreadLog();
  ThreadLog(const ThreadLog&) = delete;
  void stop();
  void publish();
};
// note (written to evidence)
void note(const std::string& key, double v);

#define MON_CHECK(cond, key, msg)         \
  do {                                    \
    ::mon::event(key);                    \
    if (!(cond)) {                        \
      std::ostringstream mon_ss_;         \
      mon_ss_.precision(17);              \
      mon_ss_ << #cond << " : " << msg;   \
      ::mon::violation(key, mon_ss_.str()); \
    }                                     \
  } while (0)

#define MON_REQUIRE(cond, key, msg)       \
  do {                                    \
    ::mon::event(key);                    \
    if (!(cond)) {                        \
      std::ostringstream mon_ss_;         \
      mon_ss_.precision(17);              \
      mon_ss_ << #cond << " : " << msg;   \
      ::mon::violation(key, mon_ss_.str()); \
      throw ::mon::CaseAborted{};         \
    }                                     \
  } while (0)

[[noreturn]] inline void discard(const std::string& why) {
  throw CaseDiscarded{why};
}

// f must not complain: assertion or exception inside is a violation `key`
// returns false if something was thrown
template <class F>
bool no_throw(const char* key, F&& f) {
  event(key);
  try {
    f();
    return true;
  } catch (const AssertFired& e) {
    violation(key, std::string("assertion: ") + e.what());
  } catch (const std::exception& e) {
    violation(key, std::string("exception: ") + e.what());
  }
  return false;
}

// f must report an error by assertion or exception
template <class F>
void must_fail(const char* key, const std::string& what, F&& f) {
  event(key);
  try {
    f();
  } catch (const AssertFired&) {
    return;
  } catch (const CaseAborted&) {
    throw;
  } catch (const std::exception&) {
    return;
  }
  violation(key, "no error reported: " + what);
}

// numeric comparisons
inline bool near(double a, double b, double tol) {
  return std::abs(a - b) <= tol * (1.0 + std::max(std::abs(a), std::abs(b)));
}
template <class A, class B>
bool near_m(const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b,
            double tol) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  if (a.size() == 0) return true;
  for (Eigen::Index j = 0; j < a.cols(); ++j) {
    for (Eigen::Index i = 0; i < a.rows(); ++i) {
      const auto d = std::abs(a(i, j) - b(i, j));
      if (!(d <= tol * (1.0 + std::abs(a(i, j)) + std::abs(b(i, j)))))
        return false;
    }
  }
  return true;
}
// relative to the largest entry
template <class A, class B>
bool near_rel(const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b,
              double tol) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  if (a.size() == 0) return true;
  const double s = 1e-300 + a.cwiseAbs().maxCoeff() + b.cwiseAbs().maxCoeff();
  const double d = (a - b).cwiseAbs().maxCoeff();
  return d <= tol * s && std::isfinite(s);
}
template <class T>
std::string str(const T& x) {
  std::ostringstream s;
  s.precision(17);
  s << x;
  return s.str();
}
template <class D>
std::string mstr(const Eigen::MatrixBase<D>& m) {
  std::ostringstream s;
  static const Eigen::IOFormat f(17, 0, ", ", "; ", "", "", "[", "]");
  s << m.format(f);
  return s.str();
}

// --- cases --------------------------------------------------------------
using CaseFn = std::function<void(Rng&, u64 index)>;
struct Stream {
  std::string name;
  u64 quick, thorough;
  CaseFn fn;
};
// Every harness registers its streams per property here.
void stream(const std::string& prop, const std::string& name, u64 quick_cases,
            u64 thorough_cases, CaseFn fn);
void register_all();  // defined by the harness

}  // namespace mon
