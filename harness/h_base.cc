// B01 reference element tables, T01 timers and narrow()
#include <lf/base/timer.h>
#include <lf/base/narrow.h>
#include <spdlog/sinks/ostream_sink.h>
#include <spdlog/spdlog.h>
#include <sys/times.h>
#include <sys/wait.h>
#include <unistd.h>

#include <array>
#include <chrono>
#include <limits>
#include <thread>

#include "common.h"

using namespace mon;
using lf::base::RefEl;
using lf::base::RefElType;
using Eigen::MatrixXd;

namespace {
const std::array<RefEl, 4> kAll{RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};

MatrixXd expected_coords(RefEl r) {
  MatrixXd m;
  switch (r.NumNodes()) {
    case 1: return MatrixXd(0, 1);
    case 2: m.resize(1, 2); m << 0, 1; return m;
    case 3: m.resize(2, 3); m << 0, 1, 0, 0, 0, 1; return m;
    default: m.resize(2, 4); m << 0, 1, 1, 0, 0, 0, 1, 1; return m;
  }
}
// corners of sub-entity (codim,i) of r as point set, via the reported index maps
MatrixXd sub_corners(RefEl r, unsigned codim, unsigned i) {
  const RefEl s = r.SubType(codim, i);
  const int n = s.NumNodes();
  MatrixXd c(r.Dimension(), n);
  for (int k = 0; k < n; ++k)
    c.col(k) = r.NodeCoords().col(r.SubSubEntity2SubEntity(codim, i, r.Dimension() - codim, k));
  return c;
}

template <RefElType T>
void static_coords() {
  const RefEl r(T);
  const auto& v = RefEl::NodeCoords<T>();
  MON_REQUIRE(v.size() == r.NumNodes(), "refel.static_coords", "size " << v.size());
  for (std::size_t i = 0; i < v.size(); ++i)
    MON_CHECK(MatrixXd(v[i]) == MatrixXd(r.NodeCoords().col(i)), "refel.static_coords",
              r.ToString() << " node " << i);
}

void refel_tables(Rng&, u64 idx) {
  const RefEl r = kAll[idx % 4];
  const unsigned dim = idx % 4 == 0 ? 0 : idx % 4 == 1 ? 1 : 2;
  const unsigned nn = idx % 4 + 1;
  MON_CHECK(r.Dimension() == dim, "refel.dim", r.ToString());
  MON_CHECK(r.NumNodes() == nn, "refel.numnodes", r.ToString());
  MON_CHECK(r.Id() == nn && static_cast<RefElType>(r) == kAll[idx % 4], "refel.id", r.Id());
  const MatrixXd ec = expected_coords(r);
  MON_REQUIRE(r.NodeCoords().rows() == dim && r.NodeCoords().cols() == nn, "refel.coords_shape", r.ToString());
  MON_CHECK(r.NodeCoords() == ec, "refel.coords", mstr(r.NodeCoords()));
  for (auto& o : kAll) {
    MON_CHECK((o.ToString() == r.ToString()) == (o.Id() == r.Id()), "refel.names", o.ToString());
  }
  // numbers and types
  for (unsigned c = 0; c <= dim; ++c) {
    const unsigned want = c == 0 ? 1 : nn;
    MON_CHECK(r.NumSubEntities(c) == want, "refel.numsub", r.ToString() << " codim " << c);
    std::set<std::vector<double>> seen;
    for (unsigned i = 0; i < r.NumSubEntities(c); ++i) {
      const RefEl s = r.SubType(c, i);
      sig(r.ToString() + ":" + std::to_string(c) + ":" + std::to_string(i));
      MON_CHECK(s.Dimension() == dim - c, "refel.subtype", r.ToString() << " " << c << " " << i);
      MON_CHECK(c != 0 || s == r, "refel.subtype_self", r.ToString());
      // sub-entities of one codimension are distinct point sets
      const MatrixXd co = sub_corners(r, c, i);
      std::vector<std::vector<double>> pts;
      for (int k = 0; k < co.cols(); ++k) pts.emplace_back(co.col(k).data(), co.col(k).data() + co.rows());
      std::sort(pts.begin(), pts.end());
      std::vector<double> flat;
      for (auto& p : pts) flat.insert(flat.end(), p.begin(), p.end());
      MON_CHECK(seen.insert(flat).second || dim == 0, "refel.sub_distinct", r.ToString() << " " << c << " " << i);
      MON_CHECK(std::set<std::vector<double>>(pts.begin(), pts.end()).size() == pts.size(), "refel.sub_corners_distinct",
                r.ToString() << " " << c << " " << i);
      // indices in range, corners of the sub-entity are corners of r
      for (unsigned rc = 0; rc <= dim - c; ++rc)
        for (unsigned k = 0; k < s.NumSubEntities(rc); ++k) {
          const unsigned m = r.SubSubEntity2SubEntity(c, i, rc, k);
          MON_REQUIRE(m < r.NumSubEntities(c + rc), "refel.subsub_range",
                      r.ToString() << " (" << c << "," << i << "," << rc << "," << k << ")->" << m);
          MON_CHECK(r.SubType(c + rc, m) == s.SubType(rc, k), "refel.subsub_type", r.ToString());
          // corner-wise identity: corners of sub-sub-entity seen through the
          // sub-entity are those of entity m
          const RefEl ss = s.SubType(rc, k);
          for (unsigned q = 0; q < ss.NumNodes(); ++q) {
            const unsigned through =
                r.SubSubEntity2SubEntity(c, i, dim - c, s.SubSubEntity2SubEntity(rc, k, s.Dimension() - rc, q));
            const unsigned direct = r.SubSubEntity2SubEntity(c + rc, m, dim - c - rc, q);
            MON_CHECK(through == direct, "refel.subsub_compose",
                      r.ToString() << " (" << c << "," << i << "," << rc << "," << k << ") corner " << q << ": "
                                   << through << " vs " << direct);
          }
        }
    }
  }
  // edges of 2D elements: boundary facets, consecutively oriented
  if (dim == 2) {
    for (unsigned e = 0; e < nn; ++e) {
      const MatrixXd s = sub_corners(r, 1, e);
      MON_CHECK(r.SubSubEntity2SubEntity(1, e, 1, 0) == e && r.SubSubEntity2SubEntity(1, e, 1, 1) == (e + 1) % nn,
                "refel.edge_ends", r.ToString() << " edge " << e);
      for (unsigned k = 0; k < nn; ++k) {
        const Eigen::Vector2d p = r.NodeCoords().col(k);
        const double cr = (s(0, 1) - s(0, 0)) * (p(1) - s(1, 0)) - (s(1, 1) - s(1, 0)) * (p(0) - s(0, 0));
        const bool end = p == s.col(0) || p == s.col(1);
        MON_CHECK(end ? cr == 0 : cr > 0, "refel.edge_is_facet", r.ToString() << " edge " << e << " corner " << k);
      }
    }
  }
  static_coords<RefElType::kPoint>();
  static_coords<RefElType::kSegment>();
  static_coords<RefElType::kTria>();
  static_coords<RefElType::kQuad>();
  // printing never fails
  for (int lvl : {0, 1, 11, 21}) {
    std::ostringstream o;
    if (dim > 1 || lvl <= 20) no_throw("refel.print", [&] { lf::base::PrintInfo(o, r, lvl); });
  }
  sample(r.ToString() + " all sub-entity maps");
}

// copies behave as values; compile-time evaluation agrees with run time
constexpr unsigned ct(RefEl r, unsigned a, unsigned b, unsigned c, unsigned d) {
  return r.SubSubEntity2SubEntity(a, b, c, d);
}
void refel_values(Rng& rng, u64) {
  RefEl a = kAll[rng.uni(0, 3)], b = kAll[rng.uni(0, 3)];
  RefEl c(a);
  c = b;
  MON_CHECK(c == b && c.NumNodes() == b.NumNodes(), "refel.value", "copy");
  RefEl d(std::move(c));
  MON_CHECK(d == b, "refel.value", "move");
  constexpr unsigned t0 = ct(RefEl::kTria(), 1, 2, 1, 1), t1 = ct(RefEl::kQuad(), 1, 3, 1, 1);
  MON_CHECK(t0 == ct(RefEl::kTria(), 1, 2, 1, 1) && t1 == ct(RefEl::kQuad(), 1, 3, 1, 1), "refel.constexpr", "");
  sig(a.Id() * 10 + b.Id());
}

// ---------------------------------------------------------------- timers -----
using ns = std::chrono::nanoseconds;
struct Stamp {
  std::int64_t wall, user, sys;
};
Stamp now() {
  static const std::int64_t f = 1000000000LL / ::sysconf(_SC_CLK_TCK);
  tms t;
  ::times(&t);
  return {std::chrono::duration_cast<ns>(std::chrono::high_resolution_clock::now().time_since_epoch()).count(),
          std::int64_t(t.tms_utime + t.tms_cutime) * f, std::int64_t(t.tms_stime + t.tms_cstime) * f};
}
// interval [lo,hi] of what the timer may report, from stamps around each call
struct Model {
  bool running = false;
  std::array<std::int64_t, 3> lo{}, hi{};     // accumulated while stopped
  Stamp s0{}, s1{};                           // around last (re)start
  static std::array<std::int64_t, 3> arr(const Stamp& s) { return {s.wall, s.user, s.sys}; }
  void start(Stamp a, Stamp b) {
    running = true;
    s0 = a;
    s1 = b;
  }
  void stop(Stamp a, Stamp b) {
    if (!running) return;
    auto A = arr(a), B = arr(b), S0 = arr(s0), S1 = arr(s1);
    for (int i = 0; i < 3; ++i) {
      lo[i] += A[i] - S1[i];
      hi[i] += B[i] - S0[i];
    }
    running = false;
  }
  void interval(Stamp a, Stamp b, std::array<std::int64_t, 3>& l, std::array<std::int64_t, 3>& h) const {
    l = lo;
    h = hi;
    if (running) {
      auto A = arr(a), B = arr(b), S0 = arr(s0), S1 = arr(s1);
      for (int i = 0; i < 3; ++i) {
        l[i] += A[i] - S1[i];
        h[i] += B[i] - S0[i];
      }
    }
  }
};
void burn(Rng& rng) {
  const int k = rng.uni(0, 5);
  if (k == 0) {
    std::this_thread::sleep_for(std::chrono::microseconds(rng.uni(10, 3000)));
  } else if (k == 1) {
    const auto t = std::chrono::steady_clock::now() + std::chrono::milliseconds(rng.uni(5, 25));
    volatile double x = 1;
    while (std::chrono::steady_clock::now() < t)
      for (int i = 0; i < 1000; ++i) x = x * 1.0000001;
  }
}
void check_times(const char* key, const lf::base::Timer::cpu_times& t, const Model& m, Stamp a, Stamp b) {
  std::array<std::int64_t, 3> l, h;
  m.interval(a, b, l, h);
  const std::array<std::int64_t, 3> v{t.wall.count(), t.user.count(), t.system.count()};
  static const char* nm[] = {"wall", "user", "system"};
  for (int i = 0; i < 3; ++i) {
    MON_CHECK(v[i] >= l[i] && v[i] <= h[i], key, nm[i] << " " << v[i] << " not in [" << l[i] << "," << h[i] << "]");
    MON_CHECK(v[i] >= 0, "timer.nonneg", nm[i] << " " << v[i]);
  }
}
void check_format(const std::string& s, const Model& m, Stamp a, Stamp b) {
  double w, u, sy, t, p;
  event("timer.format_parse");
  if (std::sscanf(s.c_str(), "W%lf U%lf S%lf T%lf P%lf", &w, &u, &sy, &t, &p) < 4) {
    violation("timer.format", "cannot parse " + s);
    return;
  }
  std::array<std::int64_t, 3> l, h;
  m.interval(a, b, l, h);
  auto in = [&](double x, std::int64_t lo, std::int64_t hi) { return x >= lo * 1e-9 - 2e-9 && x <= hi * 1e-9 + 2e-9; };
  MON_CHECK(in(w, l[0], h[0]), "timer.format", "wall in \"" << s << "\" not in [" << l[0] << "," << h[0] << "] ns");
  MON_CHECK(in(u, l[1], h[1]) && in(sy, l[2], h[2]) && in(t, l[1] + l[2], h[1] + h[2]), "timer.format",
            "cpu in \"" << s << "\"");
  if (w > 1e-6) MON_CHECK(std::abs(p - 100 * t / w) <= 1e-3 * (1 + p), "timer.format_percent", s);
}
const char* kFmt = "W{w:.9f} U{u:.9f} S{s:.9f} T{t:.9f} P{p:.9f}";

void timer_history(Rng& rng, u64) {
  const bool start = rng.coin();
  Model m;
  Stamp a = now();
  lf::base::Timer t(start);
  Stamp b = now();
  if (start) m.start(a, b);
  std::string hist = start ? "R" : "S";
  const int n = rng.uni(3, 14);
  for (int k = 0; k < n; ++k) {
    burn(rng);
    const int op = rng.uni(0, 5);
    hist += "srpefc"[op];
    a = now();
    switch (op) {
      case 0:
        t.Start();
        b = now();
        m = Model{};
        m.start(a, b);
        break;
      case 1:
        t.Stop();
        b = now();
        m.stop(a, b);
        break;
      case 2:
        t.Resume();
        b = now();
        if (!m.running) m.start(a, b);
        break;
      case 3: {
        const auto e = t.Elapsed();
        b = now();
        check_times(m.running ? "timer.elapsed_running" : "timer.elapsed_stopped", e, m, a, b);
        break;
      }
      case 4: {
        const auto s = t.Format(kFmt);
        b = now();
        check_format(s, m, a, b);
        break;
      }
      default: {  // copies are independent values
        lf::base::Timer c(t);
        c.Stop();
        const auto e = c.Elapsed();
        b = now();
        check_times("timer.copy", e, m, a, b);
        burn(rng);
        const auto e2 = c.Elapsed();
        MON_CHECK(e2.wall == e.wall && e2.user == e.user, "timer.stopped_constant", "");
      }
    }
    MON_CHECK(t.IsStopped() == !m.running, "timer.state", hist);
  }
  sig(hist);
  sample("timer ops " + hist);
}
void autotimer(Rng& rng, u64) {
  std::ostringstream os;
  Model m;
  const int mode = rng.uni(0, 2);
  std::string reported;
  Stamp e0, e1;
  if (mode < 2) {
    Stamp a = now();
    {
      lf::base::AutoTimer at(os, kFmt);
      Stamp b = now();
      m.start(a, b);
      burn(rng);
      if (mode == 1) {
        e0 = now();
        at.Report();
        e1 = now();
        const std::string s = os.str();
        MON_CHECK(!s.empty() && s.back() == '\n', "autotimer.newline", s);
        check_format(s, m, e0, e1);
        os.str("");
        burn(rng);
      }
      MON_CHECK(&at.ostream() == &os && at.FormatString() == kFmt, "autotimer.accessors", "");
      e0 = now();
      const auto e = at.Elapsed();
      e1 = now();
      check_times("autotimer.elapsed", e, m, e0, e1);
      e0 = now();
    }
    e1 = now();
    check_format(os.str(), m, e0, e1);
    MON_CHECK(!os.str().empty() && os.str().back() == '\n', "autotimer.newline", os.str());
  } else {
    auto sink = std::make_shared<spdlog::sinks::ostream_sink_mt>(os);
    auto lg = std::make_shared<spdlog::logger>("mon", sink);
    lg->set_pattern("%l|%v");
    lg->set_level(spdlog::level::trace);
    Stamp a = now();
    {
      lf::base::AutoTimer at(lg, spdlog::level::warn, kFmt);
      m.start(a, now());
      burn(rng);
      MON_CHECK(at.logger() == lg, "autotimer.accessors", "");
      e0 = now();
    }
    e1 = now();
    lg->flush();
    std::string s = os.str();
    MON_CHECK(s.rfind("warning|", 0) == 0, "autotimer.level", s);
    if (s.rfind("warning|", 0) == 0) check_format(s.substr(8), m, e0, e1);
  }
  sig("auto" + std::to_string(mode));
}

// ---------------------------------------------------------------- narrow -----
// narrow() is noexcept: a reported error ends the process, so expected errors
// are observed in a child.
template <class F>
bool child_dies(F&& f) {
  const pid_t p = ::fork();
  if (p == 0) {
    ::close(2);
    std::set_terminate([] { ::_exit(42); });
    f();
    ::_exit(0);
  }
  int st = 0;
  ::waitpid(p, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
template <class TO, class FROM>
void narrow_one(FROM v, bool fork_ok) {
  const __int128 w = v;
  const bool rep = w >= (__int128)std::numeric_limits<TO>::min() && w <= (__int128)std::numeric_limits<TO>::max();
  if (rep) {
    const TO r = lf::base::narrow<TO>(v);
    MON_CHECK((__int128)r == w, "narrow.value", (long long)v << " -> " << (long long)r);
  } else if (fork_ok) {
    const bool died = child_dies([&] {
      volatile TO r = lf::base::narrow<TO>(v);
      (void)r;
    });
    MON_CHECK(died, "narrow.error", "no error for " << (long long)v << " to " << sizeof(TO) << " bytes signed="
                                                      << std::numeric_limits<TO>::is_signed);
  }
  sig(hcomb(hcomb(sizeof(TO) * 2 + std::is_signed_v<TO>, sizeof(FROM) * 2 + std::is_signed_v<FROM>), (rep ? 1 : 2) * 3 + (v < FROM{})));
}
template <class FROM>
void narrow_from(Rng& rng) {
  std::vector<FROM> vals;
  for (long long b : {0LL, 127LL, 128LL, 255LL, 256LL, 32767LL, 32768LL, 65535LL, 65536LL, 2147483647LL, 2147483648LL,
                      4294967295LL, 4294967296LL})
    for (int s : {1, -1})
      for (int d : {-1, 0, 1}) vals.push_back(static_cast<FROM>(s * b + d));
  vals.push_back(std::numeric_limits<FROM>::max());
  vals.push_back(std::numeric_limits<FROM>::min());
  for (int k = 0; k < 4; ++k) vals.push_back(static_cast<FROM>(rng.next() >> rng.uni(0, 63)));
  for (FROM v : vals) {
    const bool f = rng.coin(0.06);
    narrow_one<std::int8_t>(v, f);
    narrow_one<std::uint8_t>(v, f);
    narrow_one<std::int16_t>(v, f);
    narrow_one<std::uint16_t>(v, f);
    narrow_one<std::int32_t>(v, f);
    narrow_one<std::uint32_t>(v, f);
    narrow_one<std::int64_t>(v, f);
    narrow_one<std::uint64_t>(v, f);
  }
}
void narrow_case(Rng& rng, u64 i) {
  switch (i % 8) {
    case 0: narrow_from<std::int8_t>(rng); break;
    case 1: narrow_from<std::uint8_t>(rng); break;
    case 2: narrow_from<std::int16_t>(rng); break;
    case 3: narrow_from<std::uint16_t>(rng); break;
    case 4: narrow_from<std::int32_t>(rng); break;
    case 5: narrow_from<std::uint32_t>(rng); break;
    case 6: narrow_from<std::int64_t>(rng); break;
    default: narrow_from<std::uint64_t>(rng); break;
  }
}
}  // namespace

namespace mon {
void register_all() {
  stream("B01", "refel_tables", 4, 4, refel_tables);
  stream("B01", "refel_values", 64, 1000, refel_values);
  stream("T01", "timer_history", 240, 4000, timer_history);
  stream("T01", "autotimer", 64, 600, autotimer);
  stream("T01", "narrow", 16, 400, narrow_case);
}
}  // namespace mon
