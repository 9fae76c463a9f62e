// Random regular element shapes, with their independent description
#pragma once
#include "meshgen.h"

namespace gen {
enum Kind { kPt, kSeg1, kSeg2, kTri1, kTri2, kQuad1, kQuad2, kParallel, kNumKinds };
struct Shape {
  Kind kind;
  int n, order, dw;  // corners, order
  MatrixXd c;        // coordinates: corners then side midpoints
  std::unique_ptr<lf::geometry::Geometry> geo;
  double size = 1, off = 0;  // diameter, distance of the origin
  double tol() const { return size + 1e-3 * off; }
  // absolute tolerance for point coordinates
  double atol(double rel = 1e-12) const { return rel * (size + off); }
};
inline const char* kind_name(Kind k) {
  static const char* n[] = {"point", "segO1", "segO2", "triaO1", "triaO2", "quadO1", "quadO2", "parallelogram"};
  return n[k];
}
// range (lo,hi) of the normalised sampled determinant; false if not regular
inline bool regular_coords(int n, int ord, const MatrixXd& c, double q = 0.05) {
  const int dw = c.rows();
  double lo = 1e300, hi = -1e300;
  VectorXd nref;
  for (int i = 0; i <= 6; ++i)
    for (int j = 0; j <= (n == 2 ? 0 : 6); ++j) {
      VectorXd x(n == 2 ? 1 : 2);
      x(0) = i / 6.0;
      if (n > 2) x(1) = j / 6.0;
      if (n == 3 && i + j > 6) continue;
      const MatrixXd J = shape_jac(n, ord, c, x);
      double det;
      if (n == 2) {
        VectorXd t = J.col(0);
        if (nref.size() == 0) nref = t;
        det = t.dot(nref) / (nref.norm() + 1e-300);
      } else if (dw == 2) {
        det = J.determinant();
      } else {
        Eigen::Vector3d nn = Eigen::Vector3d(J.col(0)).cross(Eigen::Vector3d(J.col(1)));
        if (nref.size() == 0) nref = nn;
        det = nn.dot(Eigen::Vector3d(nref)) / (nref.norm() + 1e-300);
      }
      lo = std::min(lo, det);
      hi = std::max(hi, det);
    }
  if (lo * hi <= 0) return false;
  return std::min(std::abs(lo), std::abs(hi)) > q * std::max(std::abs(lo), std::abs(hi));
}
// planar: for dw 3 keep the shape in a plane
inline Shape random_shape(Rng& r, Kind k, int dw, bool extreme = true) {
  Shape s;
  s.kind = k;
  s.dw = dw;
  s.n = k == kPt ? 1 : k <= kSeg2 ? 2 : k <= kTri2 ? 3 : 4;
  s.order = (k == kSeg2 || k == kTri2 || k == kQuad2) ? 2 : 1;
  for (int attempt = 0; attempt < 200; ++attempt) {
    MatrixXd b(2, s.n);  // planar corners
    if (s.n == 1) b << 0, 0;
    if (s.n == 2) b << 0, 1, 0, 0;
    if (s.n == 3) b << 0, 1, 0, 0, 0, 1;
    if (s.n == 4) b << 0, 1, 1, 0, 0, 0, 1, 1;
    if (s.n >= 3 && k != kParallel && !r.coin(0.1))
      for (int i = 0; i < s.n; ++i) b.col(i) += 0.3 * Vector2d(r.real(-1, 1), r.real(-1, 1));
    if (s.n >= 3) {
      std::vector<int> id(s.n);
      for (int i = 0; i < s.n; ++i) id[i] = i;
      if (!convex_ok(b, id)) continue;
    }
    const double ph = r.real(0, 2 * M_PI), sc = extreme && r.coin(0.4) ? std::pow(10.0, r.real(-4, 4)) : 1.0;
    Eigen::Matrix2d R, S;
    R << std::cos(ph), -std::sin(ph), std::sin(ph), std::cos(ph);
    const double an = extreme && r.coin(0.2) ? std::pow(10.0, r.real(-1.5, 0)) : r.real(0.5, 1.5);
    S << 1, r.real(-0.5, 0.5), 0, an * (r.coin(0.3) ? -1 : 1);
    if (r.coin(0.05)) S.setIdentity(), R.setIdentity();
    MatrixXd p(dw, s.order == 2 ? 2 * s.n - (s.n == 2) : s.n);
    MatrixXd q = R * S * b;
    for (int i = 0; i < s.n; ++i) {
      if (dw == 1) p(0, i) = b(0, i) * (S(1, 1) > 0 ? 1 : -1);
      if (dw >= 2) p.col(i).head(2) = q.col(i);
    }
    if (dw == 3) {
      const double a = r.real(-1, 1), bb = r.real(-1, 1);
      const double w = (k == kQuad1 || k == kQuad2) && r.coin(0.6) ? 0.3 : 0.0;
      for (int i = 0; i < s.n; ++i) p(2, i) = a * p(0, i) + bb * p(1, i) + w * r.real(-1, 1);
    }
    if (s.order == 2) {
      const double amp = r.coin(0.15) ? 0 : r.real(0, 0.2);
      const int ne = s.n == 2 ? 1 : s.n;
      for (int e = 0; e < ne; ++e) {
        const VectorXd t = p.col((e + 1) % s.n) - p.col(e);
        VectorXd o(dw);
        for (int i = 0; i < dw; ++i) o(i) = r.real(-1, 1);
        p.col(s.n + e) = 0.5 * (p.col(e) + p.col((e + 1) % s.n)) + amp * t.norm() * o * (dw == 1 ? 0.5 : 1.0);
      }
    }
    if (s.n > 1 && !regular_coords(s.n, s.order, p)) continue;
    if (k == kParallel) p.col(3) = p.col(0) + (p.col(2) - p.col(1));
    const double sz = sc;
    p *= sc;
    VectorXd off(dw);
    const double om = r.coin(0.3) ? 0 : r.coin(0.2) ? 100 : 2;
    for (int i = 0; i < dw; ++i) off(i) = om * sz * r.real(-1, 1);
    p.colwise() += off;
    if (k == kParallel) p.col(2) = p.col(1) + (p.col(3) - p.col(0));
    s.c = p;
    s.size = s.n == 1 ? sz : (p.rowwise().maxCoeff() - p.rowwise().minCoeff()).norm();
    s.off = p.cwiseAbs().maxCoeff();
    using namespace lf::geometry;
    if (k == kParallel) {
      if (r.coin())
        s.geo = std::make_unique<Parallelogram>(p);
      else
        s.geo = std::make_unique<Parallelogram>(VectorXd(p.col(0)), VectorXd(p.col(1)), VectorXd(p.col(3)));
    } else {
      s.geo = make_geo(s.n, s.order == 2 ? kO2 : kO1, p);
    }
    return s;
  }
  mon::discard("shape generation failed");
}
inline MatrixXd ref_global(const Shape& s, const MatrixXd& x) { return shape_global(s.n, s.order, s.c, x); }
inline int random_dw(Rng& r, Kind k) {
  if (k == kPt) return r.uni(1, 3);
  if (k == kSeg1 || k == kSeg2) return r.coin(0.2) ? 1 : r.uni(2, 3);
  return r.coin(0.6) ? 2 : 3;
}
// max abs difference of point clouds
inline double mdist(const MatrixXd& a, const MatrixXd& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return 1e300;
  if (a.size() == 0) return 0;
  const double d = (a - b).cwiseAbs().maxCoeff();
  return std::isfinite(d) ? d : 1e300;
}
}  // namespace gen
