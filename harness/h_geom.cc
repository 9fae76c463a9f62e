// G01 derivative consistency of shapes, G02 sub-entity shapes are restrictions
#include "shapes.h"
#include <lf/geometry/print_info.h>

using namespace mon;
using namespace gen;

namespace {
// derivative weights at x for nodes t (degree 4 interpolation)
VectorXd dweights(const VectorXd& t, double x) {
  const int n = t.size();
  VectorXd w(n);
  for (int i = 0; i < n; ++i) {
    double s = 0;
    for (int m = 0; m < n; ++m) {
      if (m == i) continue;
      double p = 1;
      for (int j = 0; j < n; ++j)
        if (j != i && j != m) p *= (x - t(j)) / (t(i) - t(j));
      s += p / (t(i) - t(m));
    }
    w(i) = s;
  }
  return w;
}

void shapes(Rng& r, u64 idx) {
  const Kind k = static_cast<Kind>(idx % kNumKinds);
  const Shape s = random_shape(r, k, random_dw(r, k));
  const auto& g = *s.geo;
  const int dl = s.n == 1 ? 0 : s.n == 2 ? 1 : 2;
  const std::string tag = std::string(kind_name(k)) + " dw=" + std::to_string(s.dw) + " coords " + mstr(s.c);
  sig(tag);
  if (idx < 8) sample(tag);
  MON_CHECK((int)g.DimLocal() == dl, "geo.dim_local", tag);
  MON_CHECK((int)g.DimGlobal() == s.dw, "geo.dim_global", tag);
  MON_CHECK(g.RefEl() == ref_of(s.n), "geo.ref_el", tag);
  event(std::string("kind.") + kind_name(k) + ".dw" + std::to_string(s.dw));
  const int np = r.uni(1, 9);
  const MatrixXd x = ref_points(r, s.n, np);
  const MatrixXd G = g.Global(x);
  MON_REQUIRE(G.rows() == s.dw && G.cols() == np, "geo.global_shape", tag);
  const MatrixXd R = ref_global(s, x);
  MON_CHECK(mdist(G, R) <= s.atol(), "geo.global", tag << " at " << mstr(x) << " got " << mstr(G) << " want " << mstr(R));
  // corner query
  const MatrixXd co = lf::geometry::Corners(g);
  MON_CHECK(mdist(co, s.c.leftCols(s.n)) <= s.atol(), "geo.corners", tag << " got " << mstr(co));
  // single point evaluation
  for (int j = 0; j < np; ++j)
    MON_CHECK(mdist(g.Global(x.col(j)), G.col(j)) <= s.atol(1e-14), "geo.global_single", tag << " col " << j);
  // integration element
  const VectorXd ie = g.IntegrationElement(x);
  MON_REQUIRE(ie.size() == np, "geo.ie_shape", tag);
  if (dl == 0) {
    for (int j = 0; j < np; ++j) MON_CHECK(ie(j) == 1.0, "geo.point_ie", tag);
    MON_CHECK(lf::geometry::Volume(g) == 1.0, "geo.point_volume", tag);
    const MatrixXd J0 = g.Jacobian(x);
    MON_CHECK(J0.rows() == s.dw && J0.cols() == 0, "geo.point_jac", tag);
    return;
  }
  const MatrixXd J = g.Jacobian(x);
  MON_REQUIRE(J.rows() == s.dw && J.cols() == np * dl, "geo.jac_shape", tag);
  const MatrixXd Q = g.JacobianInverseGramian(x);
  MON_REQUIRE(Q.rows() == s.dw && Q.cols() == np * dl, "geo.jig_shape", tag);
  for (int j = 0; j < np; ++j) {
    const MatrixXd Jj = J.middleCols(j * dl, dl);
    // (a) derivative of the independent mapping
    const MatrixXd Jr = shape_jac(s.n, s.order, s.c, x.col(j));
    MON_CHECK(mdist(Jj, Jr) <= 1e-10 * s.size + 1e-13 * s.off * 100, "geo.jacobian",
              tag << " at " << mstr(x.col(j)) << " got " << mstr(Jj) << " want " << mstr(Jr));
    // (b) derivative of the mapping the library returns
    for (int d = 0; d < dl; ++d) {
      double L = 1;
      if (s.n == 3) L = 1 - x(1 - d, j);
      if (L < 0.1) continue;
      VectorXd t(5);
      t << 0, 0.25, 0.5, 0.75, 1;
      t *= L;
      MatrixXd xs = x.col(j).replicate(1, 5);
      xs.row(d) = t.transpose();
      if (s.n == 3) xs.row(d) = xs.row(d).cwiseMin(1 - x(1 - d, j)).cwiseMax(0.0);
      const VectorXd der = g.Global(xs) * dweights(t, x(d, j));
      MON_CHECK(mdist(der, Jj.col(d)) <= (1e-10 * s.size + 1e-13 * s.off * 10) / L * 10, "geo.jacobian_of_map",
                tag << " direction " << d << " at " << mstr(x.col(j)) << " got " << mstr(Jj.col(d)) << " derivative "
                    << mstr(der));
    }
    // (c) inverse Gramian and integration element from the returned Jacobian
    const MatrixXd Gm = Jj.transpose() * Jj;
    const double det = dl == 1 ? Gm(0, 0) : Gm(0, 0) * Gm(1, 1) - Gm(0, 1) * Gm(1, 0);
    Eigen::JacobiSVD<MatrixXd> svd(Jj, Eigen::ComputeThinU | Eigen::ComputeThinV);
    const VectorXd sv = svd.singularValues();
    const double cond = sv(0) / sv(dl - 1);
    const double vol = dl == 1 ? sv(0) : sv(0) * sv(1);
    MON_CHECK(std::abs(ie(j) - vol) <= 1e-13 * cond * cond * vol, "geo.integration_element",
              tag << " got " << ie(j) << " want " << vol << " det " << det);
    MatrixXd W = svd.matrixU();
    for (int d = 0; d < dl; ++d) W.col(d) /= sv(d);
    W = (W * svd.matrixV().transpose()).eval();
    const double ws = W.cwiseAbs().maxCoeff();
    const MatrixXd Qj = Q.middleCols(j * dl, dl);
    MON_CHECK(mdist(Qj, W) <= 1e-13 * cond * cond * ws * 10, "geo.inverse_gramian",
              tag << " at " << mstr(x.col(j)) << " got " << mstr(Qj) << " want " << mstr(W));
    // (d) one point alone
    const MatrixXd J1 = g.Jacobian(x.col(j)), Q1 = g.JacobianInverseGramian(x.col(j));
    const VectorXd i1 = g.IntegrationElement(x.col(j));
    MON_CHECK(mdist(J1, Jj) <= 1e-13 * (s.size + 1e-2 * s.off), "geo.jacobian_single", tag << " col " << j);
    MON_CHECK(mdist(Q1, Qj) <= 1e-13 * cond * cond * ws, "geo.jig_single", tag << " col " << j);
    MON_CHECK(i1.size() == 1 && std::abs(i1(0) - ie(j)) <= 1e-13 * cond * cond * vol, "geo.ie_single", tag << " col " << j);
  }
  if (g.isAffine()) {
    event("geo.affine_seen");
    for (int j = 1; j < np; ++j) {
      MON_CHECK(mdist(J.middleCols(j * dl, dl), J.leftCols(dl)) <= 1e-13 * s.size + 1e-15 * s.off, "geo.affine_constant", tag);
      MON_CHECK(near(ie(j) / ie(0), 1.0, 1e-12), "geo.affine_ie_constant", tag);
    }
  }
  // volume: shapes for which the midpoint is exact
  bool planar = s.dw == 2 || k == kTri1 || k == kParallel;
  if (k == kSeg1 || (s.order == 1 && planar && s.n >= 3)) {
    // midpoint by composite Gauss of the independent Jacobian
    double v = 0;
    if (s.n == 2) {
      v = (s.c.col(1) - s.c.col(0)).norm();
    } else {
      auto tri = [&](int a, int b, int c) {
        VectorXd u = s.c.col(b) - s.c.col(a), w = s.c.col(c) - s.c.col(a);
        const double uu = u.dot(u), ww = w.dot(w), uw = u.dot(w);
        return 0.5 * std::sqrt(std::max(0.0, uu * ww - uw * uw));
      };
      v = tri(0, 1, 2) + (s.n == 4 ? tri(0, 2, 3) : 0);
    }
    const double vol = lf::geometry::Volume(g);
    MON_CHECK(std::abs(vol - v) <= 1e-8 * v + 1e-14 * s.off * s.size, "geo.volume", tag << " got " << vol << " want " << v);
  }
  // printing
  std::ostringstream o;
  o << g;
  for (int c : {0, 50, 100}) lf::geometry::PrintInfo(o, g, c);
  MON_CHECK(!o.str().empty(), "geo.print", tag);
}

void sub(Rng& r, u64 idx) {
  const Kind k = static_cast<Kind>(idx % kNumKinds);
  const Shape s = random_shape(r, k, random_dw(r, k));
  const auto& g = *s.geo;
  const int dl = s.n == 1 ? 0 : s.n == 2 ? 1 : 2;
  const std::string tag = std::string(kind_name(k)) + " dw=" + std::to_string(s.dw) + " coords " + mstr(s.c);
  if (idx < 8) sample(tag);
  sig(tag);
  event(std::string("kind.") + kind_name(k) + ".dw" + std::to_string(s.dw));
  // corners of the reference element
  MatrixXd rc(dl, s.n);
  if (s.n == 2) rc << 0, 1;
  if (s.n == 3) rc << 0, 1, 0, 0, 0, 1;
  if (s.n == 4) rc << 0, 1, 1, 0, 0, 0, 1, 1;
  {
    auto q = g.SubGeometry(0, 0);
    MON_REQUIRE(q != nullptr && q->RefEl() == g.RefEl() && q->DimGlobal() == g.DimGlobal(), "sub.self_type", tag);
    const MatrixXd x = ref_points(r, s.n, 5);
    MON_CHECK(mdist(q->Global(x), g.Global(x)) <= s.atol(1e-14), "sub.self", tag);
    if (dl > 0)
      MON_CHECK(mdist(q->Jacobian(x), g.Jacobian(x)) <= 1e-13 * s.size + 1e-14 * s.off, "sub.self_jac", tag);
    MON_CHECK(q->isAffine() == g.isAffine(), "sub.self_affine", tag);
  }
  if (dl == 0) return;
  for (int i = 0; i < s.n; ++i) {
    auto q = g.SubGeometry(dl, i);
    MON_REQUIRE(q != nullptr && q->RefEl() == RefEl::kPoint() && q->DimLocal() == 0 && (int)q->DimGlobal() == s.dw,
                "sub.vertex_type", tag);
    const MatrixXd p = q->Global(MatrixXd(0, 1));
    MON_CHECK(mdist(p, g.Global(rc.col(i))) <= s.atol(), "sub.vertex", tag << " corner " << i << " got " << mstr(p));
  }
  if (dl == 1) return;
  for (int e = 0; e < s.n; ++e) {
    auto q = g.SubGeometry(1, e);
    MON_REQUIRE(q != nullptr && q->RefEl() == RefEl::kSegment() && q->DimLocal() == 1 && (int)q->DimGlobal() == s.dw,
                "sub.edge_type", tag);
    const int m = 6;
    MatrixXd t = ref_points(r, 2, m), x(2, m);
    for (int j = 0; j < m; ++j) x.col(j) = (1 - t(0, j)) * rc.col(e) + t(0, j) * rc.col((e + 1) % s.n);
    x = x.cwiseMax(0.0).cwiseMin(1.0);
    const MatrixXd a = q->Global(t), b = g.Global(x);
    MON_CHECK(mdist(a, b) <= s.atol(), "sub.edge", tag << " side " << e << " at " << mstr(t) << " got " << mstr(a) << " want " << mstr(b));
    // tangents
    const MatrixXd Jq = q->Jacobian(t), Jg = g.Jacobian(x);
    for (int j = 0; j < m; ++j) {
      const VectorXd d = Jg.middleCols(2 * j, 2) * (rc.col((e + 1) % s.n) - rc.col(e));
      MON_CHECK(mdist(Jq.col(j), d) <= 1e-10 * s.size + 1e-12 * s.off, "sub.edge_tangent", tag << " side " << e);
      MON_CHECK(near(q->IntegrationElement(t)(j) / (d.norm() + 1e-300), 1.0, 1e-8 + 1e-11 * s.off / s.size), "sub.edge_length", tag << " side " << e);
    }
    // end points of the side are the corners
    for (int v = 0; v < 2; ++v) {
      auto p = q->SubGeometry(1, v);
      MON_REQUIRE(p != nullptr && p->RefEl() == RefEl::kPoint(), "sub.edge_end_type", tag);
      const int corner = (e + v) % s.n;
      MON_CHECK(mdist(p->Global(MatrixXd(0, 1)), g.SubGeometry(2, corner)->Global(MatrixXd(0, 1))) <= s.atol(),
                "sub.edge_end", tag << " side " << e << " end " << v);
    }
  }
}

// two neighbouring cells sharing a (curved) side see the same point set
void neighbours(Rng& r, u64 idx) {
  const bool o2 = r.coin(0.7);
  const Kind ka = r.coin() ? (o2 ? kTri2 : kTri1) : (o2 ? kQuad2 : kQuad1);
  const int dw = r.coin(0.7) ? 2 : 3;
  const Shape A = random_shape(r, ka, dw, false);
  const int e = r.uni(0, A.n - 1);
  const VectorXd p = A.c.col(e), q = A.c.col((e + 1) % A.n);
  const VectorXd mid = o2 ? VectorXd(A.c.col(A.n + e)) : VectorXd(0.5 * (p + q));
  // neighbour: mirror the other corners across the side's midpoint
  const int nb = r.coin() ? 3 : 4;
  const VectorXd ctr = A.c.leftCols(A.n).rowwise().mean();
  VectorXd away = 0.5 * (p + q) - ctr;
  std::vector<VectorXd> corner;  // in order: q, p, ... (opposite traversal)
  corner.push_back(q);
  corner.push_back(p);
  if (nb == 3) {
    corner.push_back(0.5 * (p + q) + 1.3 * away);
  } else {
    corner.push_back(p + 1.2 * away);
    corner.push_back(q + 1.1 * away);
  }
  const int rot = r.uni(0, nb - 1);
  const bool flip = r.coin();
  MatrixXd c(dw, o2 ? 2 * nb : nb);
  std::vector<VectorXd> cc(nb);
  for (int i = 0; i < nb; ++i) cc[(i + rot) % nb] = corner[i];
  if (flip) std::reverse(cc.begin(), cc.end());
  int se = -1;
  for (int i = 0; i < nb; ++i) {
    c.col(i) = cc[i];
    const VectorXd &u = cc[i], &v = cc[(i + 1) % nb];
    const bool shared = (u == p && v == q) || (u == q && v == p);
    if (shared) se = i;
    if (o2) c.col(nb + i) = shared ? mid : VectorXd(0.5 * (u + v));
  }
  if (!regular_coords(nb, o2 ? 2 : 1, c)) discard("irregular neighbour");
  auto g = make_geo(nb, o2 ? kO2 : kO1, c);
  auto sa = A.geo->SubGeometry(1, e), sb = g->SubGeometry(1, se);
  MatrixXd t = ref_points(r, 2, 7);
  const bool same = c.col(se) == p;
  MatrixXd t2 = same ? t : MatrixXd((1 - t.array()).matrix());
  const MatrixXd a = sa->Global(t), b = sb->Global(t2);
  sig(hcomb(A.n * 10 + nb, (u64)(e * 100 + se * 10 + o2 * 2 + same)));
  MON_CHECK(mdist(a, b) <= A.atol(1e-12) * 3, "sub.shared_side", kind_name(ka) << " side " << e << " vs side " << se << " : " << mstr(a) << " / " << mstr(b));
}
}  // namespace

void mon::register_all() {
  stream("G01", "shapes", 12000, 400000, shapes);
  stream("G02", "sub", 9000, 250000, sub);
  stream("G02", "neighbours", 4000, 150000, neighbours);
  if (env().replay) return;
}
