// Q01: quadrature rules. Oracle: discrete orthonormality against the constant
// function: an orthonormal polynomial basis (Legendre / Koornwinder-Dubiner)
// must be integrated to (1/sqrt(vol)-scaled volume, 0, 0, ...).
#include <lf/quad/gauss_quadrature.h>
#include <lf/quad/quad.h>

#include <set>

#include "common.h"

using namespace mon;
using lf::base::RefEl;
using lf::quad::QuadRule;

namespace {
// orthonormal shifted Legendre values on [0,1]
void legendre(int k, double t, std::vector<double>& out) {
  out.resize(k + 1);
  const double s = 2 * t - 1;
  double a = 1, b = s;
  for (int j = 0; j <= k; ++j) {
    out[j] = a * std::sqrt(2.0 * j + 1);
    const double c = ((2 * j + 3) * s * b - (j + 1) * a) / (j + 2);
    a = b;
    b = c;
  }
}
// (1-y)^p P_p((2x-(1-y))/(1-y)), p=0..k
void scaled_legendre(int k, double x, double y, std::vector<double>& out) {
  out.resize(k + 2);
  const double u = 2 * x - (1 - y), v = (1 - y) * (1 - y);
  out[0] = 1;
  out[1] = u;
  for (int j = 1; j < k; ++j) out[j + 1] = ((2 * j + 1) * u * out[j] - j * v * out[j - 1]) / (j + 1);
}
// Jacobi P_q^{(a,0)}(z)
void jacobi(int q, double a, double z, std::vector<double>& out) {
  out.resize(q + 2);
  out[0] = 1;
  out[1] = (a + (a + 2) * z) / 2;
  for (int n = 1; n < q; ++n) {
    const double c = 2 * n + a;
    const double a1 = 2 * (n + 1) * (n + a + 1) * c;
    const double a2 = (c + 1) * a * a;
    const double a3 = c * (c + 1) * (c + 2);
    const double a4 = 2 * (n + a) * n * (c + 2);
    out[n + 1] = ((a2 + a3 * z) * out[n] - a4 * out[n - 1]) / a1;
  }
}

// largest |quadrature - exact| over the orthonormal basis; entry [k] is the
// largest error among functions of degree exactly k
std::vector<double> errors(const QuadRule& q, int kmax) {
  std::vector<double> err(kmax + 1, 0.0);
  const Eigen::MatrixXd& P = q.Points();
  const Eigen::VectorXd& W = q.Weights();
  const int n = static_cast<int>(W.size());
  const double* w = W.data();
  if (q.RefEl() == RefEl::kPoint()) {
    err[0] = std::abs(W.sum() - 1);
    return err;
  }
  if (q.RefEl() == RefEl::kSegment()) {
    std::vector<double> s(kmax + 1, 0.0), v;
    for (int i = 0; i < n; ++i) {
      legendre(kmax, P(0, i), v);
      for (int k = 0; k <= kmax; ++k) s[k] += w[i] * v[k];
    }
    for (int k = 0; k <= kmax; ++k) err[k] = std::abs(s[k] - (k == 0 ? 1 : 0));
  } else if (q.RefEl() == RefEl::kQuad()) {
    std::vector<double> s((kmax + 1) * (kmax + 1), 0.0), v, u;
    for (int i = 0; i < n; ++i) {
      legendre(kmax, P(0, i), v);
      legendre(kmax, P(1, i), u);
      for (int a = 0; a <= kmax; ++a) {
        const double f = w[i] * v[a];
        double* row = s.data() + a * (kmax + 1);
        for (int b = 0; b <= kmax; ++b) row[b] += f * u[b];
      }
    }
    for (int a = 0; a <= kmax; ++a)
      for (int b = 0; b <= kmax; ++b) {
        double& e = err[std::max(a, b)];
        const double d = std::abs(s[a * (kmax + 1) + b] - (a + b == 0 ? 1 : 0));
        if (!(d <= e)) e = d;
      }
  } else {
    std::vector<double> s((kmax + 1) * (kmax + 1), 0.0), sl, ja;
    for (int i = 0; i < n; ++i) {
      const double x = P(0, i), y = P(1, i);
      scaled_legendre(kmax, x, y, sl);
      for (int p = 0; p <= kmax; ++p) {
        jacobi(kmax - p, 2 * p + 1, 2 * y - 1, ja);
        const double f = w[i] * sl[p];
        double* row = s.data() + p * (kmax + 1);
        for (int b = 0; b <= kmax - p; ++b) row[b] += f * ja[b];
      }
    }
    for (int p = 0; p <= kmax; ++p)
      for (int b = 0; p + b <= kmax; ++b) {
        const double nrm = std::sqrt((2.0 * p + 1) * (2.0 * p + 2 * b + 2));
        const double d = std::abs(s[p * (kmax + 1) + b] - (p + b == 0 ? 0.5 : 0)) * nrm;
        double& e = err[p + b];
        if (!(d <= e)) e = d;
      }
  }
  return err;
}

void check_rule(const QuadRule& q, RefEl re, unsigned requested, bool sharp) {
  MON_REQUIRE(q.RefEl() == re, "refel", re.ToString());
  MON_REQUIRE(q.Degree() >= requested, "degree_at_least",
              re.ToString() << " requested " << requested << " declared " << q.Degree());
  MON_CHECK(q.Order() == q.Degree() + 1, "order", q.Order() << " " << q.Degree());
  MON_REQUIRE(q.Points().rows() == re.Dimension() && q.Points().cols() == q.Weights().size() &&
                  q.NumPoints() == q.Weights().size() && q.NumPoints() > 0,
              "shape", re.ToString() << " " << requested);
  const int n = static_cast<int>(q.NumPoints());
  const double vol = re == RefEl::kTria() ? 0.5 : 1.0;
  MON_CHECK(std::abs(q.Weights().sum() - vol) < 1e-12 * (1 + std::sqrt(n)), "weights_sum",
            re.ToString() << " degree " << requested << " sum " << q.Weights().sum());
  if (re.Dimension() > 0) {
    const double lo = q.Points().minCoeff(), hi = q.Points().maxCoeff();
    const double tl = re == RefEl::kTria() ? q.Points().colwise().sum().maxCoeff() : 0;
    MON_CHECK(lo >= 0 && hi <= 1 && tl <= 1 + 1e-15, "points_inside",
              re.ToString() << " degree " << requested << " lo " << lo << " hi " << hi << " sum " << tl);
  }
  std::set<std::vector<double>> pts;
  for (int i = 0; i < n; ++i) {
    std::vector<double> p(re.Dimension());
    for (unsigned d = 0; d < re.Dimension(); ++d) p[d] = q.Points()(d, i);
    pts.insert(p);
  }
  MON_CHECK(static_cast<int>(pts.size()) == n, "points_distinct", re.ToString() << " degree " << requested);
  const int D = static_cast<int>(q.Degree());
  const int K = re == RefEl::kPoint() ? 0 : D + 1;
  const std::vector<double> e = errors(q, K);
  double worst = 0;
  int at = 0;
  for (int k = 0; k <= std::min(D, K); ++k)
    if (!(e[k] <= worst)) worst = e[k], at = k;
  const double tol = 1e-14 * (10 + D);
  note("exactness_err_over_tol", worst / tol);
  MON_CHECK(worst <= tol, "exact",
            re.ToString() << " requested " << requested << " declared " << D << " error " << worst << " for degree "
                          << at);
  if (sharp && re != RefEl::kPoint()) {
    // the declared degree is the largest one that is integrated exactly
    MON_CHECK(e[D + 1] > 1e-9, "degree_is_largest",
              re.ToString() << " requested " << requested << " declared " << D << " but degree " << D + 1
                            << " is exact too");
  }
  const double m = q.Weights().minCoeff();
  MON_CHECK(m > 0, "weights_positive", re.ToString() << " degree " << requested << " " << m);
  sig(hcomb(hcomb(re.Id(), requested), n));
}

bool same(const QuadRule& a, const QuadRule& b) {
  return a.RefEl() == b.RefEl() && a.Degree() == b.Degree() && a.Points() == b.Points() && a.Weights() == b.Weights();
}

unsigned degree_of(u64 i, unsigned lim, unsigned step) {
  return i < lim ? static_cast<unsigned>(i) : lim + static_cast<unsigned>(i - lim) * step;
}

void rule_case(RefEl re, unsigned d) {
  QuadRule q;
  if (!no_throw("make_rule", [&] { q = lf::quad::make_QuadRule(re, d); })) return;
  check_rule(q, re, d, true);
  event(re == RefEl::kSegment() ? "seg_rules" : re == RefEl::kTria() ? "tria_rules" : "quad_rules");
  if (re == RefEl::kTria()) event(d >= 1 && d <= 50 ? "tria_tabulated" : "tria_tensor");
}
void seg_rules(Rng&, u64 i) {
  rule_case(RefEl::kSegment(), degree_of(i, 120, thorough() ? 1 : 9));
}
void quad_rules(Rng&, u64 i) {
  rule_case(RefEl::kQuad(), degree_of(i, 40, 7));
}
void tria_rules(Rng&, u64 i) {
  rule_case(RefEl::kTria(), degree_of(i, 56, thorough() ? 3 : 9));
}

void named_rules(Rng&, u64) {
  using namespace lf::quad;
  // declared number of points and order are part of the rules' names
  struct N {
    const char* n;
    QuadRule q;
    RefEl re;
    unsigned pts, order;
  };
  const std::vector<N> v{{"tria P1O2", make_TriaQR_P1O2(), RefEl::kTria(), 1, 2},
                         {"tria mid", make_TriaQR_MidpointRule(), RefEl::kTria(), 1, 2},
                         {"tria P3O3", make_TriaQR_P3O3(), RefEl::kTria(), 3, 3},
                         {"tria edge mid", make_TriaQR_EdgeMidpointRule(), RefEl::kTria(), 3, 3},
                         {"tria P6O4", make_TriaQR_P6O4(), RefEl::kTria(), 6, 4},
                         {"tria P7O6", make_TriaQR_P7O6(), RefEl::kTria(), 7, 6},
                         {"quad P1O2", make_QuadQR_P1O2(), RefEl::kQuad(), 1, 2},
                         {"quad P4O2", make_QuadQR_P4O2(), RefEl::kQuad(), 4, 2},
                         {"quad edge mid", make_QuadQR_EdgeMidpointRule(), RefEl::kQuad(), 4, 2},
                         {"quad P4O4", make_QuadQR_P4O4(), RefEl::kQuad(), 4, 4}};
  for (const N& x : v) {
    MON_CHECK(x.q.NumPoints() == x.pts && x.q.Order() >= x.order, "named",
              x.n << " " << x.q.NumPoints() << " points, order " << x.q.Order());
    check_rule(x.q, x.re, x.order - 1, false);
    event("named_rules");
  }
  for (RefEl re : {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) {
    const QuadRule q = make_QuadRuleNodal(re);
    check_rule(q, re, 1, false);
    MON_CHECK(q.Points() == re.NodeCoords(), "nodal_points", re.ToString());
    event("nodal_rules");
  }
  // edge midpoint rules see only edge midpoints
  for (const QuadRule& q : {make_TriaQR_EdgeMidpointRule(), make_QuadQR_EdgeMidpointRule()}) {
    const RefEl re = q.RefEl();
    for (unsigned e = 0; e < re.NumSubEntities(1); ++e) {
      const Eigen::Vector2d m = 0.5 * (re.NodeCoords().col(re.SubSubEntity2SubEntity(1, e, 1, 0)) +
                                       re.NodeCoords().col(re.SubSubEntity2SubEntity(1, e, 1, 1)));
      double best = 1;
      for (unsigned i = 0; i < q.NumPoints(); ++i) best = std::min(best, (q.Points().col(i) - m).norm());
      MON_CHECK(best < 1e-15, "edge_midpoint", re.ToString() << " edge " << e);
    }
  }
}

// random request histories to caches: results, address stability, moves
void cache_history(Rng& rng, u64) {
  auto cache = std::make_unique<lf::quad::QuadRuleCache>();
  struct Given {
    RefEl re;
    unsigned d;
    const QuadRule* p;
    QuadRule copy;
  };
  std::vector<Given> given;
  const int n = rng.uni(5, 60);
  u64 h = 1;
  const unsigned dmax = rng.coin(0.1) ? 64 : rng.uni(1, 20);
  for (int s = 0; s < n; ++s) {
    const RefEl re = rng.pick(std::vector<RefEl>{RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()});
    const unsigned d = rng.uni(0, static_cast<int>(dmax));
    h = hcomb(h, re.Id() * 1000 + d);
    const QuadRule* p = nullptr;
    if (!no_throw("cache_get", [&] { p = &cache->Get(re, d); })) return;
    MON_CHECK(p->Degree() >= d && p->RefEl() == re, "cache_degree", re.ToString() << " " << d);
    const QuadRule fresh = lf::quad::make_QuadRule(re, d);
    MON_CHECK(same(fresh, *p), "cache_same_as_make", re.ToString() << " " << d);
    for (const Given& g : given) {
      if (g.re == re && g.d == d)
        MON_CHECK(g.p == p, "cache_same_address", re.ToString() << " " << d);
    }
    given.push_back({re, d, p, *p});
    for (const Given& g : given)
      MON_CHECK(same(*g.p, g.copy) && g.p->Weights().data() != nullptr, "cache_reference_stable",
                g.re.ToString() << " " << g.d);
    if (rng.coin(0.05)) {
      // moved cache keeps delivering the right rules
      lf::quad::QuadRuleCache other(std::move(*cache));
      auto c2 = std::make_unique<lf::quad::QuadRuleCache>();
      *c2 = std::move(other);
      cache = std::move(c2);
      given.clear();  // references belong to the previous cache object
      event("cache_moved");
    }
  }
  // copies are independent values
  QuadRule a = lf::quad::make_QuadRule(RefEl::kTria(), dmax);
  QuadRule b = a, c(std::move(a));
  MON_CHECK(same(b, c), "copy_equal", "");
  sig(h);
}

// two separate calls give bitwise equal rules whatever was requested between
void repeat(Rng& rng, u64) {
  const RefEl re = rng.pick(std::vector<RefEl>{RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()});
  const unsigned d = rng.uni(0, 55);
  const QuadRule a = lf::quad::make_QuadRule(re, d);
  for (int k = rng.uni(0, 3); k > 0; --k)
    (void)lf::quad::make_QuadRule(rng.coin() ? RefEl::kTria() : RefEl::kSegment(), rng.uni(0, 60));
  MON_CHECK(same(a, lf::quad::make_QuadRule(re, d)), "repeatable", re.ToString() << " " << d);
  std::ostringstream o;
  o << a;
  a.PrintInfo(o, 1);
  MON_CHECK(o.str().find(std::to_string(a.NumPoints()) + "-point") != std::string::npos, "print", o.str());
  sig(hcomb(re.Id(), d));
}

// generic Gauss-Jacobi rules: moments of the weight (1-x)^a (1+x)^b
void jacobi_rules(Rng& rng, u64 i) {
  const unsigned n = i < 20 ? static_cast<unsigned>(i + 1) : rng.uni(1, thorough() ? 400 : 60);
  auto [p, w] = lf::quad::GaussJacobi(n, 1, 0);
  MON_REQUIRE(p.size() == n && w.size() == n, "jacobi_size", n);
  MON_CHECK(std::abs(w.sum() - 2) < 1e-12, "jacobi_sum", n << " " << w.sum());
  // orthogonality of Jacobi P^{(1,0)} to constants
  std::vector<double> s(2 * n, 0.0), v;
  for (unsigned k = 0; k < n; ++k) {
    jacobi(2 * static_cast<int>(n), 1, p(k), v);
    for (unsigned j = 0; j < 2 * n; ++j) s[j] += w(k) * v[j] * std::sqrt((2 * j + 2.0) / 4.0);
  }
  double worst = 0;
  for (unsigned j = 1; j < 2 * n; ++j) worst = std::max(worst, std::abs(s[j]));
  MON_CHECK(worst < 1e-12 * (10 + n), "jacobi_exact", n << " err " << worst);
  sig(n);
}
}  // namespace

namespace mon {
void register_all() {
  stream("Q01", "seg", 160, 1200, seg_rules);
  stream("Q01", "quad", 48, 90, quad_rules);
  stream("Q01", "tria", 64, 130, tria_rules);
  stream("Q01", "named", 8, 8, named_rules);
  stream("Q01", "cache", 160, 2000, cache_history);
  stream("Q01", "repeat", 64, 1000, repeat);
  stream("Q01", "jacobi", 40, 400, jacobi_rules);
  expect("Q01", {"seg_rules", "quad_rules", "tria_tabulated", "tria_tensor", "named_rules", "nodal_rules",
                 "cache_moved", "exact", "degree_is_largest", "cache_reference_stable"});
}
}  // namespace mon
