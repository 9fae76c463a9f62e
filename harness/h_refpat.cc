// G03 refinement patterns tile the reference element; child shapes restrict the parent
#include <lf/refinement/hybrid2d_refinement_pattern.h>

#include "shapes.h"

using namespace mon;
using namespace gen;
using lf::refinement::Hybrid2DRefinementPattern;
using lf::refinement::RefPat;

namespace {
struct Pat {
  int n;  // corners of the element
  RefPat p;
  int anchor;  // -1: none
};
std::vector<Pat> all_patterns() {
  using namespace lf::refinement;
  std::vector<Pat> v{{1, rp_nil, -1}, {1, rp_copy, -1}, {2, rp_nil, -1}, {2, rp_copy, -1}, {2, rp_split, -1},
                     {3, rp_nil, -1}, {3, rp_copy, -1}, {3, rp_regular, -1}, {3, rp_barycentric, -1},
                     {4, rp_nil, -1}, {4, rp_copy, -1}, {4, rp_regular, -1}, {4, rp_barycentric, -1}};
  for (int a = 0; a < 3; ++a)
    for (RefPat p : {rp_bisect, rp_trisect, rp_trisect_left, rp_quadsect}) v.push_back({3, p, a});
  for (int a = 0; a < 4; ++a)
    for (RefPat p : {rp_split, rp_bisect, rp_trisect, rp_quadsect, rp_threeedge}) v.push_back({4, p, a});
  return v;
}
// the pattern object, reached through a random history of the offered setters
std::unique_ptr<Hybrid2DRefinementPattern> make_pat(Rng& r, const Pat& p) {
  const RefEl re = ref_of(p.n);
  using H = Hybrid2DRefinementPattern;
  switch (r.uni(0, 3)) {
    case 0: return p.anchor < 0 ? std::make_unique<H>(re, p.p) : std::make_unique<H>(re, p.p, p.anchor);
    case 1: {
      auto q = std::make_unique<H>(re);
      q->setRefPattern(p.p);
      if (p.anchor >= 0) q->setAnchor(p.anchor);
      return q;
    }
    case 2: {
      auto q = std::make_unique<H>(re, lf::refinement::rp_copy);
      if (p.n >= 2) q->setAnchor(r.uni(0, p.n == 2 ? 1 : p.n - 1));
      q->setRefPattern(p.p);
      if (p.anchor >= 0) q->setAnchor(p.anchor);
      return q;
    }
    default:
      return std::make_unique<H>(re, p.p, p.anchor < 0 ? lf::base::kIdxNil : (unsigned)p.anchor);
  }
}
using Poly = std::vector<std::pair<long, long>>;
Poly to_poly(const Eigen::MatrixXi& m) {
  Poly p;
  for (int j = 0; j < m.cols(); ++j) p.emplace_back(m(0, j), m.rows() > 1 ? m(1, j) : 0);
  return p;
}
long area2(const Poly& p) {
  long a = 0;
  for (std::size_t i = 0; i < p.size(); ++i) {
    auto [x, y] = p[i];
    auto [u, v] = p[(i + 1) % p.size()];
    a += x * v - y * u;
  }
  return a;
}
// interiors of convex polygons disjoint (separating axis, exact)
bool disjoint(const Poly& a, const Poly& b) {
  for (int s = 0; s < 2; ++s) {
    const Poly &p = s ? b : a, &q = s ? a : b;
    for (std::size_t i = 0; i < p.size(); ++i) {
      auto [x, y] = p[i];
      auto [u, v] = p[(i + 1) % p.size()];
      const long nx = v - y, ny = -(u - x);
      long pmin = 1L << 40, pmax = -pmin, qmin = pmin, qmax = -pmin;
      for (auto& [c, d] : p) pmin = std::min(pmin, nx * c + ny * d), pmax = std::max(pmax, nx * c + ny * d);
      for (auto& [c, d] : q) qmin = std::min(qmin, nx * c + ny * d), qmax = std::max(qmax, nx * c + ny * d);
      if (pmax <= qmin || qmax <= pmin) return true;
    }
  }
  return false;
}
using LEdge = std::pair<std::pair<long, long>, std::pair<long, long>>;
LEdge ledge(std::pair<long, long> a, std::pair<long, long> b) { return a < b ? LEdge{a, b} : LEdge{b, a}; }
// side of the reference element (0..n-1) both points lie on, -1 if none
int side_of(int n, long N, std::pair<long, long> a, std::pair<long, long> b) {
  auto on = [&](int s, std::pair<long, long> p) {
    auto [x, y] = p;
    if (n == 3) return s == 0 ? y == 0 : s == 1 ? x + y == N : x == 0;
    return s == 0 ? y == 0 : s == 1 ? x == N : s == 2 ? y == N : x == 0;
  };
  for (int s = 0; s < n; ++s)
    if (on(s, a) && on(s, b)) return s;
  return -1;
}

std::string name(const Pat& p) {
  std::ostringstream s;
  s << ref_of(p.n).ToString() << " " << p.p << " anchor " << p.anchor;
  return s.str();
}

void tiling(Rng& r, u64 idx) {
  static const auto pats = all_patterns();
  const Pat p = pats[idx % pats.size()];
  const auto rp_owner = make_pat(r, p);
  const auto& rp = *rp_owner;
  const std::string tag = name(p);
  sig(tag);
  if (idx % 7 == 0) sample(tag);
  const int dim = p.n == 1 ? 0 : p.n == 2 ? 1 : 2;
  const long N = rp.LatticeConst();
  MON_CHECK(rp.RefEl() == ref_of(p.n) && N > 0 && N % 6 == 0, "pat.type", tag);
  MON_CHECK(rp.refpat() == p.p, "pat.refpat", tag);
  if (p.anchor >= 0) MON_CHECK((int)rp.anchor() == p.anchor, "pat.anchor", tag);
  for (int c = 0; c <= dim; ++c) {
    const auto polys = rp.ChildPolygons(c);
    if (p.n > 1) MON_CHECK(polys.size() == rp.NumChildren(c), "pat.count", tag << " codim " << c << ": " << polys.size() << " polygons, NumChildren " << rp.NumChildren(c));
    for (auto& q : polys) MON_CHECK(q.rows() == dim, "pat.rows", tag << " codim " << c);
  }
  if (p.p == lf::refinement::rp_nil) {
    for (int c = 0; c <= dim; ++c) MON_CHECK(rp.NumChildren(c) == 0, "pat.nil", tag);
    return;
  }
  if (dim == 0) {
    MON_CHECK(rp.NumChildren(0) == 1, "pat.point", tag);
    return;
  }
  const auto cells = rp.ChildPolygons(0);
  MON_REQUIRE(!cells.empty(), "pat.nonempty", tag);
  if (dim == 1) {
    // intervals tiling [0,N]
    std::vector<std::pair<long, long>> iv;
    std::set<long> inner;
    for (auto& q : cells) {
      MON_REQUIRE(q.cols() == 2, "pat.interval", tag);
      const long a = std::min(q(0, 0), q(0, 1)), b = std::max(q(0, 0), q(0, 1));
      MON_CHECK(a < b && a >= 0 && b <= N, "pat.interval", tag);
      iv.emplace_back(a, b);
      if (a > 0) inner.insert(a);
      if (b < N) inner.insert(b);
    }
    std::sort(iv.begin(), iv.end());
    long at = 0;
    for (auto& [a, b] : iv) {
      MON_CHECK(a == at, "pat.interval_tiling", tag);
      at = b;
    }
    MON_CHECK(at == N, "pat.interval_tiling", tag);
    std::set<long> got;
    for (auto& q : rp.ChildPolygons(1)) {
      MON_REQUIRE(q.cols() == 1, "pat.point_shape", tag);
      MON_CHECK(got.insert(q(0, 0)).second, "pat.inner_points", tag);
    }
    MON_CHECK(got == inner, "pat.inner_points", tag);
    return;
  }
  long total = 0;
  std::vector<Poly> P;
  std::map<LEdge, int> edges;
  std::set<std::pair<long, long>> verts;
  for (auto& q : cells) {
    MON_REQUIRE(q.cols() == 3 || (q.cols() == 4 && p.n == 4), "pat.cell_corners", tag);
    Poly c = to_poly(q);
    const long a = area2(c);
    MON_CHECK(a != 0, "pat.cell_degenerate", tag);
    // convex, all corners turn the same way
    for (std::size_t i = 0; i < c.size(); ++i) {
      const auto &u = c[i], &v = c[(i + 1) % c.size()], &w = c[(i + 2) % c.size()];
      const long t = (v.first - u.first) * (w.second - v.second) - (v.second - u.second) * (w.first - v.first);
      MON_CHECK(t * a > 0, "pat.cell_convex", tag);
      MON_CHECK(u.first >= 0 && u.second >= 0 && (p.n == 3 ? u.first + u.second <= N : u.first <= N && u.second <= N), "pat.cell_inside", tag);
      edges[ledge(u, v)]++;
      verts.insert(u);
    }
    total += std::abs(a);
    P.push_back(c);
  }
  MON_CHECK(total == (p.n == 3 ? N * N : 2 * N * N), "pat.area", tag << " total " << total);
  for (std::size_t i = 0; i < P.size(); ++i)
    for (std::size_t j = i + 1; j < P.size(); ++j) MON_CHECK(disjoint(P[i], P[j]), "pat.overlap", tag << " children " << i << "," << j);
  // edges: interior ones exactly the children of codim 1, shared by two cells
  std::set<LEdge> interior, got;
  std::array<std::set<long>, 4> split;
  for (auto& [e, cnt] : edges) {
    const int s = side_of(p.n, N, e.first, e.second);
    if (s < 0) {
      interior.insert(e);
      MON_CHECK(cnt == 2, "pat.hanging", tag << " interior edge with " << cnt << " cells");
    } else {
      MON_CHECK(cnt == 1, "pat.side_edge", tag);
      const long len = std::max(std::abs(e.first.first - e.second.first), std::abs(e.first.second - e.second.second));
      MON_CHECK(len == N || len == N / 2, "pat.side_half", tag << " side " << s);
      split[s].insert(len);
    }
  }
  for (int s = 0; s < p.n; ++s) MON_CHECK(split[s].size() == 1, "pat.side_split", tag << " side " << s);
  for (auto& q : rp.ChildPolygons(1)) {
    MON_REQUIRE(q.cols() == 2, "pat.edge_shape", tag);
    const Poly e = to_poly(q);
    MON_CHECK(got.insert(ledge(e[0], e[1])).second, "pat.edge_twice", tag);
  }
  MON_CHECK(got == interior, "pat.interior_edges", tag << ": " << got.size() << " listed, " << interior.size() << " between children");
  std::set<std::pair<long, long>> iv, gv;
  for (auto& v : verts)
    if (side_of(p.n, N, v, v) < 0) iv.insert(v);
  for (auto& q : rp.ChildPolygons(2)) {
    MON_REQUIRE(q.cols() == 1, "pat.point_shape", tag);
    MON_CHECK(gv.insert(to_poly(q)[0]).second, "pat.point_twice", tag);
  }
  MON_CHECK(gv == iv, "pat.interior_points", tag);
  if (p.n == 3 && p.p == lf::refinement::rp_bisect)
    for (int s = 0; s < 3; ++s)
      MON_CHECK((*split[s].begin() == N / 2) == (s == p.anchor), "pat.bisect_side", tag << " side " << s);
  if (p.p == lf::refinement::rp_regular || p.p == lf::refinement::rp_barycentric)
    for (int s = 0; s < p.n; ++s) MON_CHECK(*split[s].begin() == N / 2, "pat.all_sides", tag << " side " << s);
}

double integrate(const lf::geometry::Geometry& g, int n) {
  // composite tensor Gauss (4 points) on the reference element
  static const double gx[4] = {0.5 - 0.43056815579702629, 0.5 - 0.16999052179242813, 0.5 + 0.16999052179242813, 0.5 + 0.43056815579702629};
  static const double gw[4] = {0.17392742256872693, 0.32607257743127307, 0.32607257743127307, 0.17392742256872693};
  if (n == 2) {
    MatrixXd x(1, 16);
    VectorXd w(16);
    for (int b = 0; b < 4; ++b)
      for (int i = 0; i < 4; ++i) x(0, 4 * b + i) = (b + gx[i]) / 4, w(4 * b + i) = gw[i] / 4;
    return w.dot(g.IntegrationElement(x));
  }
  MatrixXd x(2, 16);
  VectorXd w(16);
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) {
      const int k = 4 * i + j;
      if (n == 4) {
        x.col(k) << gx[i], gx[j];
        w(k) = gw[i] * gw[j];
      } else {
        x.col(k) << gx[i] * (1 - gx[j]), gx[j];
        w(k) = gw[i] * gw[j] * (1 - gx[j]);
      }
    }
  return w.dot(g.IntegrationElement(x));
}

// the sampled Jacobian keeps its orientation
bool regular_geo(const lf::geometry::Geometry& g, int n) {
  MatrixXd x(n == 2 ? 1 : 2, 0);
  for (int i = 0; i <= 8; ++i)
    for (int j = 0; j <= (n == 2 ? 0 : n == 3 ? 8 - i : 8); ++j) {
      x.conservativeResize(x.rows(), x.cols() + 1);
      x(0, x.cols() - 1) = i / 8.0;
      if (n > 2) x(1, x.cols() - 1) = j / 8.0;
    }
  const MatrixXd J = g.Jacobian(x);
  const int d = n == 2 ? 1 : 2;
  VectorXd ref;
  double lo = 1e300, hi = -1e300;
  for (int k = 0; k < x.cols(); ++k) {
    VectorXd v;
    if (d == 1) v = J.col(k);
    else if (J.rows() == 2) v = VectorXd::Constant(1, J.middleCols(2 * k, 2).determinant());
    else v = Eigen::Vector3d(J.col(2 * k)).cross(Eigen::Vector3d(J.col(2 * k + 1)));
    if (k == 0) ref = v;
    lo = std::min(lo, v.dot(ref));
    hi = std::max(hi, v.dot(ref));
  }
  return lo > 0.03 * hi;
}

// children of a shape under a pattern
void children(Rng& r, const lf::geometry::Geometry& g, int n, double at, bool planar_o1, bool affine, bool dw2, int depth, const std::string& tag0) {
  static const auto pats = all_patterns();
  std::vector<Pat> mine;
  for (auto& p : pats)
    if (p.n == n && p.p != lf::refinement::rp_nil) mine.push_back(p);
  const Pat p = r.pick(mine);
  const auto rp_owner = make_pat(r, p);
  const auto& rp = *rp_owner;
  const std::string tag = tag0 + " <- " + name(p);
  event("children." + name(p));
  const double N = rp.LatticeConst();
  const int dim = n == 1 ? 0 : n == 2 ? 1 : 2;
  double vol = 0;
  bool all_exact = true;
  std::vector<std::unique_ptr<lf::geometry::Geometry>> kids0;
  for (int c = 0; c <= dim; ++c) {
    if (n == 1) {
      auto k = g.ChildGeometry(rp, 0);
      MON_REQUIRE(k.size() == 1 && k[0] && k[0]->RefEl() == RefEl::kPoint(), "child.point", tag);
      MON_CHECK(mdist(k[0]->Global(MatrixXd(0, 1)), g.Global(MatrixXd(0, 1))) <= at, "child.point", tag);
      return;
    }
    const auto polys = rp.ChildPolygons(c);
    auto kids = g.ChildGeometry(rp, c);
    MON_REQUIRE(kids.size() == polys.size(), "child.count", tag << " codim " << c);
    for (std::size_t i = 0; i < kids.size(); ++i) {
      MON_REQUIRE(kids[i] != nullptr, "child.null", tag);
      const auto& k = *kids[i];
      const MatrixXd pl = polys[i].cast<double>() / N;  // placement corners
      const int m = pl.cols();
      MON_REQUIRE(k.RefEl() == ref_of(m) && k.DimGlobal() == g.DimGlobal(), "child.type", tag << " codim " << c);
      // corners always agree
      const MatrixXd kc = k.Global(ref_of(m).NodeCoords());
      MON_CHECK(mdist(kc, g.Global(pl)) <= at, "child.corners", tag << " codim " << c << " child " << i << " got " << mstr(kc) << " want " << mstr(g.Global(pl)));
      if (m == 1) continue;
      // does the composition belong to the child's shape family?
      bool exact = n != 4 || affine;
      if (n == 4 && !affine) {
        exact = true;
        for (int a = 0; a < m; ++a) {
          const VectorXd d = pl.col((a + 1) % m) - pl.col(a);
          if (d(0) != 0 && d(1) != 0) exact = false;
        }
        if (m == 3) exact = false;
      }
      const MatrixXd x = ref_points(r, m, 5);
      if (exact) {
        event("child.exact");
        const MatrixXd want = g.Global(shape_global(m, 1, pl, x).cwiseMax(0.0).cwiseMin(1.0));
        const MatrixXd have = k.Global(x);
        MON_CHECK(mdist(have, want) <= at, "child.composition", tag << " codim " << c << " child " << i << " at " << mstr(x) << " got " << mstr(have) << " want " << mstr(want));
      } else if (c == 0) {
        all_exact = false;
      }
      // sides of the child on sides of the parent are exact in any case
      if (c == 0 && n >= 3) {
        const Poly q = to_poly(polys[i]);
        for (int a = 0; a < m; ++a) {
          if (side_of(n, (long)N, q[a], q[(a + 1) % m]) < 0) continue;
          event("child.side_on_parent_side");
          const MatrixXd t = ref_points(r, 2, 4);
          MatrixXd y = pl.col(a) * (1 - t.array()).matrix() + pl.col((a + 1) % m) * t;
          const MatrixXd want = g.Global(y.cwiseMax(0.0).cwiseMin(1.0));
          const MatrixXd have = k.SubGeometry(1, a)->Global(t);
          MON_CHECK(mdist(have, want) <= at, "child.side", tag << " child " << i << " side " << a << " got " << mstr(have) << " want " << mstr(want));
        }
      }
      if (c == 0) vol += integrate(k, m);
    }
    if (c == 0) kids0 = std::move(kids);
  }
  const double pv = integrate(g, n);
  if (all_exact || planar_o1) {
    // smooth integrands: Gauss is exact for polynomial determinants (2D), otherwise approximate
    const double tol = (dw2 && n > 2) || affine || planar_o1 ? 1e-9 : 2e-2;
    MON_CHECK(std::abs(vol - pv) <= tol * pv, "child.volume", tag << " sum " << vol << " parent " << pv);
  }
  if (depth > 0) {
    const int i = r.uni(0, (int)kids0.size() - 1);
    const int m = kids0[i]->RefEl().NumNodes();
    // children of curved quadrilaterals may fold; volumes mean nothing then
    if (!regular_geo(*kids0[i], m)) return;
    // a child of a bilinear quad keeps straight sides; affine if reported so
    children(r, *kids0[i], m, at, planar_o1, kids0[i]->isAffine(), dw2, depth - 1, tag);
  }
}

void shapes(Rng& r, u64 idx) {
  const Kind k = static_cast<Kind>(idx % 8 == 0 ? (r.coin(0.1) ? kPt : kParallel) : idx % 8);
  const Shape s = random_shape(r, k, random_dw(r, k));
  const std::string tag = std::string(kind_name(k)) + " dw=" + std::to_string(s.dw) + " coords " + mstr(s.c);
  if (idx < 8) sample(tag);
  sig(tag);
  const bool planar_o1 = s.order == 1 && (s.dw == 2 || k == kTri1 || k == kParallel || k == kSeg1);
  const bool affine = k == kSeg1 || k == kTri1 || k == kParallel;
  children(r, *s.geo, s.n, s.atol(2e-12), planar_o1, affine, s.dw == 2 && (s.order == 1 || s.n == 3 || true), k == kPt ? 0 : r.uni(0, 3), tag);
}
// the small tools around patterns
void tools(Rng& r, u64 idx) {
  using namespace lf::refinement;
  using H = Hybrid2DRefinementPattern;
  // lattice polygons: parallelogram or not
  {
    const int n = r.uni(0, 4) == 0 ? r.uni(1, 6) : 4;
    Eigen::MatrixXi P(2, n);
    for (int j = 0; j < n; ++j) P.col(j) << r.uni(-6, 6), r.uni(-6, 6);
    if (n == 4 && r.coin(0.6)) {
      P.col(3) = P.col(0) + P.col(2) - P.col(1);
      if (r.coin(0.4)) P(r.uni(0, 1), r.uni(0, 3)) += r.coin() ? 1 : -1;
    }
    const bool want = n == 4 && P.col(1) - P.col(0) == P.col(2) - P.col(3);
    MON_CHECK(lf::geometry::isParallelogram(P) == want, "pat.parallelogram", "corners\n" << P);
    if (want) event("pat.true_parallelogram");
    sig(hash_str(mstr(P.cast<double>())));
  }
  // patterns that are not symmetric need an anchor, which belongs to the pattern
  const bool tria = r.coin();
  const RefEl re = tria ? RefEl::kTria() : RefEl::kQuad();
  const int n = tria ? 3 : 4;
  const RefPat p = tria ? r.pick(std::vector<RefPat>{rp_bisect, rp_trisect, rp_trisect_left, rp_quadsect}) : r.pick(std::vector<RefPat>{rp_bisect, rp_trisect, rp_quadsect, rp_threeedge});
  H h(re, p, r.uni(0, n - 1));
  MON_CHECK(h.refpat() == p, "pat.refpat", "");
  switch (r.uni(0, 3)) {
    case 0: must_fail("pat.no_anchor", "pattern without its anchor", [&] { (void)H(re, p).refpat(); }); break;
    case 1:
      h.setRefPattern(p);
      must_fail("pat.no_anchor", "setRefPattern invalidates the anchor", [&] { (void)h.refpat(); });
      h.setAnchor(1);
      MON_CHECK(h.refpat() == p && h.anchor() == 1, "pat.refpat", "");
      break;
    case 2:
      h.setAnchor(lf::base::kIdxNil);
      must_fail("pat.no_anchor", "anchor taken away", [&] { (void)h.refpat(); });
      break;
    default:
      must_fail("pat.bad_anchor", "anchor out of range", [&] { h.setAnchor(n + r.uni(0, 3)); });
      must_fail("pat.bad_anchor", "anchor out of range", [&] { H(re, p, n + r.uni(0, 3)); });
  }
  (void)idx;
}
}  // namespace

void mon::register_all() {
  stream("G03", "tools", 400, 8000, tools);
  stream("G03", "tiling", 180, 900, tiling);
  stream("G03", "shapes", 8000, 250000, shapes);
  expect({"pat.true_parallelogram", "child.exact", "child.side_on_parent_side", "child.volume", "pat.interior_edges"});
}
