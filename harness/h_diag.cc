// B02: formatted matrices and log messages keep their content.
#include <fmt/format.h>
#include <lf/base/eigen_tools.h>
#include <lf/base/spdlog_utils.h>
#include <spdlog/pattern_formatter.h>
#include <spdlog/sinks/ostream_sink.h>
#include <spdlog/spdlog.h>

#include <complex>

#include "common.h"

using namespace mon;

namespace {
std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> v(1);
  for (char c : s)
    if (c == '\n')
      v.emplace_back();
    else
      v.back() += c;
  return v;
}
// ---- fmt of matrices ----------------------------------------------------------
template <class S>
S value(Rng& r) {
  if constexpr (std::is_integral_v<S>)
    return (S)r.uni(-9999, 9999);
  else if constexpr (std::is_floating_point_v<S>)
    return r.coin(0.2) ? (S)r.uni(-20, 20) : (S)(r.real(-1, 1) * std::pow(10.0, r.uni(-12, 12)));
  else
    return S(r.real(-3, 3), r.real(-3, 3));
}
template <class S>
std::string entry(S v, int prec) {  // what a stream with that precision prints
  std::ostringstream o;
  o.precision(prec);
  o << v;
  return o.str();
}
// "[a, b, ...]" without padding
std::vector<std::string> cells(const std::string& line, bool& ok) {
  std::vector<std::string> v;
  ok = line.size() >= 2 && line.front() == '[' && line.back() == ']';
  if (!ok) return v;
  std::string cur;
  int depth = 0;
  for (char c : line.substr(1, line.size() - 2)) {
    if (c == '(') ++depth;
    if (c == ')') --depth;
    if (c == ',' && depth == 0) {
      v.push_back(cur);
      cur.clear();
    } else if (c != ' ') {
      cur += c;
    }
  }
  v.push_back(cur);
  return v;
}
template <class M, class E>
void formatted(Rng& r, const M& m, const E& expr, const char* what) {
  using S = typename M::Scalar;
  const int prec = r.coin(0.4) ? 0 : r.uni(1, 17);
  const std::string before = r.coin() ? "" : "value = ", behind = r.coin() ? "" : " end {}";
  const std::string f = before + (prec == 0 ? "{}" : "{:." + std::to_string(prec) + "}");
  std::string s;
  const bool other = r.coin();
  if (!no_throw("format_accepted", [&] { s = behind.empty() ? fmt::format(fmt::runtime(f), expr) : fmt::format(fmt::runtime(f + behind), expr, 42); })) return;
  const std::string tail = behind.empty() ? "" : " end 42";
  MON_REQUIRE(s.size() >= before.size() + tail.size() && s.compare(0, before.size(), before) == 0 && s.compare(s.size() - tail.size(), tail.size(), tail) == 0, "format_surroundings", what << ": " << s);
  s = s.substr(before.size(), s.size() - before.size() - tail.size());
  if (other && prec == 0) MON_CHECK(fmt::to_string(expr) == s, "to_string", what << ": " << s);
  const auto l = lines(s);
  MON_REQUIRE(l.size() == (std::size_t)m.rows(), "format_rows", what << " with " << m.rows() << " rows printed as " << s);
  for (int i = 0; i < m.rows(); ++i) {
    bool ok = false;
    const auto c = cells(l[i], ok);
    MON_REQUIRE(ok && c.size() == (std::size_t)m.cols(), "format_row", what << " row " << i << ": " << l[i]);
    for (int j = 0; j < m.cols(); ++j) {
      const std::string e = std::is_integral_v<S> ? std::to_string((long)std::real(m(i, j))) : entry<S>(m(i, j), prec == 0 ? 4 : prec);
      MON_CHECK(c[j] == e, "format_entry", what << " entry " << i << "," << j << ": " << c[j] << " instead of " << e << " with precision " << prec);
    }
  }
  event(prec == 0 ? "default_precision" : "given_precision");
  event(std::string("matrix_") + what);
}
template <class S>
void scalar_kind(Rng& r, const char* what) {
  using MX = Eigen::Matrix<S, -1, -1>;
  MX m(r.uni(1, 5), r.uni(1, 5));
  for (int i = 0; i < m.size(); ++i) m.data()[i] = value<S>(r);
  switch (r.uni(0, 5)) {
    case 0: formatted(r, m, m, what); break;
    case 1: {
      const MX t = m.transpose();
      formatted(r, t, m.transpose(), what);
      break;
    }
    case 2: {
      const MX b = m.topRows(1);
      formatted(r, b, m.topRows(1), what);
      break;
    }
    case 3: {
      const MX b = m + m;
      formatted(r, b, m + m, what);
      break;
    }
    case 4: {
      const Eigen::Array<S, -1, -1> a = m.array();
      formatted(r, m, a, what);
      break;
    }
    default: {
      Eigen::Matrix<S, 3, 2, Eigen::RowMajor> f;
      for (int i = 0; i < 6; ++i) f(i / 2, i % 2) = value<S>(r);
      const MX b = f;
      formatted(r, b, f, what);
    }
  }
  u64 h = m.rows() * 31 + m.cols();
  for (int i = 0; i < m.size(); ++i) h = h * 131 + (u64)(std::int64_t)(std::real(m.data()[i]) * 1e6);
  sig(h);
}
void matrices(Rng& r, u64 k) {
  switch (k % 4) {
    case 0: scalar_kind<double>(r, "double"); break;
    case 1: scalar_kind<float>(r, "float"); break;
    case 2: scalar_kind<int>(r, "int"); break;
    default: scalar_kind<std::complex<double>>(r, "complex");
  }
}
// ---- concepts -----------------------------------------------------------------
void concepts(Rng& r, u64) {
  using lf::base::EigenArray;
  using lf::base::EigenMatrix;
  using Eigen::ArrayXd;
  using Eigen::Matrix;
  using Eigen::MatrixXd;
  const std::pair<bool, bool> t[] = {
      {EigenMatrix<MatrixXd>, true},
      {EigenMatrix<const MatrixXd&>, true},
      {(EigenMatrix<MatrixXd, double>), true},
      {(EigenMatrix<MatrixXd, float>), false},
      {(EigenMatrix<MatrixXd, double, 3, 4>), true},
      {(EigenMatrix<Matrix<double, 2, 3>, double, 2, 3>), true},
      {(EigenMatrix<Matrix<double, 2, 3>, double, 3, 3>), false},
      {(EigenMatrix<Matrix<double, 2, 3>, double, 2, 2>), false},
      {(EigenMatrix<Matrix<double, 2, 3>, double, -1, 3>), true},
      {(EigenMatrix<Matrix<double, 2, 3>, double, 2, -1>), true},
      {(EigenMatrix<Matrix<double, 2, 3>, void, 2, 3>), true},
      {(EigenMatrix<Matrix<double, -1, 3>, void, 5, 3>), true},
      {(EigenMatrix<Matrix<double, -1, 3>, void, 5, 2>), false},
      {(EigenMatrix<Matrix<double, 2, -1>, void, 2, 7>), true},
      {(EigenMatrix<Matrix<double, 2, -1>, void, 3, 7>), false},
      {(EigenMatrix<Eigen::VectorXcd, std::complex<double>, -1, 1>), true},
      {(EigenMatrix<Eigen::VectorXcd, std::complex<double>, -1, 2>), false},
      {(EigenMatrix<Matrix<int, 2, 2, Eigen::RowMajor>, int, 2, 2>), true},
      {EigenMatrix<ArrayXd>, false},
      {EigenMatrix<double>, false},
      {EigenMatrix<std::vector<double>>, false},
      {EigenArray<ArrayXd>, true},
      {(EigenArray<Eigen::Array<int, 2, 3>>), true},
      {EigenArray<const ArrayXd&>, true},
      {EigenArray<MatrixXd>, false},
      {EigenArray<double>, false},
  };
  int i = 0;
  for (auto& [a, b] : t) {
    MON_CHECK(a == b, "concept", "row " << i);
    ++i;
    event("concept_rows");
  }
  sig(r.next());
}
// ---- log messages -------------------------------------------------------------
std::string text(Rng& r, int nl) {
  std::string s;
  for (int k = 0; k <= nl; ++k) {
    if (k) s += '\n';
    for (int q = r.coin(0.2) ? 0 : r.uni(1, 30); q > 0; --q) s += "abc XYZ 019 .,:[]{}%"[r.uni(0, 19)];
  }
  return s;
}
void messages(Rng& r, u64 k) {
  // the pattern ends with the message, as the default pattern does
  static const std::vector<std::string> kPat{"[%n] [%l] %v", "%v", "%L|%v", "[%n] %v", "%n %n %n: %v", "[%H:%M] <%l> %v", "[%Y-%m-%d] [%n] [%t] %v"};
  const std::string pat = r.pick(kPat);
  const std::string name = "diag" + std::to_string(k) + std::string(r.uni(0, 6), 'x');
  auto lg = lf::base::InitLogger(name);
  MON_REQUIRE(lg && lg->name() == name && spdlog::get(name) == lg, "logger_registered", name);
  MON_CHECK(lg->sinks().size() == 1, "logger_sinks", lg->sinks().size());
  if (r.coin(0.3)) {
    bool refused = false;
    try {
      (void)lf::base::InitLogger(name);
    } catch (const spdlog::spdlog_ex&) {
      refused = true;
    }
    MON_CHECK(refused, "logger_name_unique", name);
  }
  std::ostringstream os, plain;
  auto sink = std::make_shared<spdlog::sinks::ostream_sink_mt>(os);
  auto ps = std::make_shared<spdlog::sinks::ostream_sink_mt>(plain);
  auto wrap = std::make_unique<lf::base::LineFeedFormatter>(std::make_unique<spdlog::pattern_formatter>(pat));
  if (r.coin())
    sink->set_formatter(std::move(wrap));
  else
    sink->set_formatter(wrap->clone());
  ps->set_pattern(pat);
  lg->sinks() = {sink, ps};
  lg->set_level(spdlog::level::trace);
  const int n = r.uni(1, 5);
  for (int q = 0; q < n; ++q) {
    os.str("");
    plain.str("");
    const int nl = r.coin(0.4) ? 0 : r.uni(1, 6);
    const std::string msg = text(r, nl);
    const auto level = (spdlog::level::level_enum)r.uni(0, 5);
    lg->log(level, "{}", msg);
    lg->flush();
    if (nl == 0) {
      MON_CHECK(os.str() == plain.str(), "single_line", os.str() << " instead of " << plain.str());
      event("single_line");
      continue;
    }
    // width of the prefix: the wrapped formatter's first line without the message's first line
    const auto ml = lines(msg), want = lines(plain.str()), got = lines(os.str());
    MON_REQUIRE(got.size() == ml.size() + 1 && got.back().empty(), "line_count", "message of " << ml.size() << " lines printed as " << os.str());
    MON_CHECK(got[0] == want[0], "first_line", got[0] << " instead of " << want[0]);
    const std::size_t w = want[0].size() - ml[0].size();
    for (std::size_t i = 1; i < ml.size(); ++i)
      MON_CHECK(got[i] == std::string(w, ' ') + ml[i], "continued_line", "line " << i << " \"" << got[i] << "\" of prefix width " << w);
    event("multi_line");
    if (w == 0) event("no_prefix");
  }
  spdlog::drop(name);
  sig(std::hash<std::string>{}(os.str() + pat));
}
}  // namespace

void mon::register_all() {
  stream("B02", "matrices", 1500, 60000, matrices);
  stream("B02", "concepts", 1, 1, concepts);
  stream("B02", "messages", 600, 20000, messages);
  expect("B02", {"default_precision", "given_precision", "matrix_double", "matrix_float", "matrix_int", "matrix_complex", "concept_rows", "single_line", "multi_line", "no_prefix"});
}
