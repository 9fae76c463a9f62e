// Random hybrid 2D meshes together with an independent description of them.
#pragma once
#include <lf/geometry/geometry.h>
#include <lf/mesh/hybrid2d/hybrid2d.h>
#include <lf/mesh/mesh.h>

#include <algorithm>
#include <memory>
#include <optional>

#include "common.h"

namespace gen {
using mon::Rng;
using Eigen::MatrixXd;
using Eigen::Vector2d;
using Eigen::VectorXd;
using lf::base::RefEl;
using Edge2 = std::pair<int, int>;
inline Edge2 ekey(int a, int b) { return a < b ? Edge2{a, b} : Edge2{b, a}; }

inline RefEl ref_of(int n) {
  return n == 1 ? RefEl::kPoint() : n == 2 ? RefEl::kSegment() : n == 3 ? RefEl::kTria() : RefEl::kQuad();
}

// ---- independent element maps ----------------------------------------------
// n = number of corners (2,3,4); order 1 or 2; columns of c: corners, then
// side midpoints (order 2; for n==2 one midpoint)
inline VectorXd shape_fn(int n, int order, const VectorXd& x) {
  VectorXd N;
  if (n == 1) return VectorXd::Ones(1);
  if (n == 2) {
    const double s = x(0);
    if (order == 1) {
      N.resize(2);
      N << 1 - s, s;
    } else {
      N.resize(3);
      N << (1 - s) * (1 - 2 * s), s * (2 * s - 1), 4 * s * (1 - s);
    }
  } else if (n == 3) {
    const double a = 1 - x(0) - x(1), b = x(0), c = x(1);
    if (order == 1) {
      N.resize(3);
      N << a, b, c;
    } else {
      N.resize(6);
      N << a * (2 * a - 1), b * (2 * b - 1), c * (2 * c - 1), 4 * a * b, 4 * b * c, 4 * c * a;
    }
  } else {
    const double s = x(0), t = x(1);
    if (order == 1) {
      N.resize(4);
      N << (1 - s) * (1 - t), s * (1 - t), s * t, (1 - s) * t;
    } else {
      // serendipity
      N.resize(8);
      N << (1 - s) * (1 - t) * (1 - 2 * s - 2 * t), s * (1 - t) * (2 * s - 2 * t - 1), s * t * (2 * s + 2 * t - 3),
          (1 - s) * t * (2 * t - 2 * s - 1), 4 * s * (1 - s) * (1 - t), 4 * s * t * (1 - t), 4 * s * t * (1 - s),
          4 * (1 - s) * t * (1 - t);
    }
  }
  return N;
}
inline MatrixXd shape_global(int n, int order, const MatrixXd& c, const MatrixXd& x) {
  MatrixXd r(c.rows(), x.cols());
  for (int j = 0; j < x.cols(); ++j) r.col(j) = c * shape_fn(n, order, x.col(j));
  return r;
}
// derivative by exact central differences of a polynomial of degree <= 3 per
// direction (5 point stencil is exact for degree 4)
inline MatrixXd shape_jac(int n, int order, const MatrixXd& c, const VectorXd& x) {
  MatrixXd J(c.rows(), x.size());
  const double h = 0.125;
  for (int d = 0; d < x.size(); ++d) {
    auto f = [&](double k) {
      VectorXd y = x;
      y(d) += k * h;
      return VectorXd(c * shape_fn(n, order, y));
    };
    J.col(d) = (8.0 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h);
  }
  return J;
}
// generic derivative of f at x along coordinate d, exact for degree <= 4
template <class F>
VectorXd stencil5(F&& f, const VectorXd& x, int d, double h = 0.125) {
  auto g = [&](double k) {
    VectorXd y = x;
    y(d) += k * h;
    return VectorXd(f(y));
  };
  return (8.0 * (g(1) - g(-1)) - (g(2) - g(-2))) / (12 * h);
}

// random points of reference element (n corners), includes boundary points
inline VectorXd ref_point(Rng& r, int n, bool interior = false) {
  if (n == 1) return VectorXd(0);
  if (n == 2) {
    VectorXd x(1);
    x << (interior || r.coin(0.8) ? r.real() : (r.coin() ? 0.0 : 1.0));
    return x;
  }
  VectorXd x(2);
  if (n == 3) {
    double a = r.real(), b = r.real();
    if (a + b > 1) {
      a = 1 - a;
      b = 1 - b;
    }
    if (!interior && r.coin(0.15)) b = 0;
    if (!interior && r.coin(0.1)) a = 0;
    x << a, b;
  } else {
    double a = r.real(), b = r.real();
    if (!interior && r.coin(0.1)) a = r.coin() ? 0 : 1;
    if (!interior && r.coin(0.1)) b = r.coin() ? 0 : 1;
    x << a, b;
  }
  return x;
}
inline MatrixXd ref_points(Rng& r, int n, int cnt, bool interior = false) {
  MatrixXd m(n == 1 ? 0 : n == 2 ? 1 : 2, cnt);
  for (int i = 0; i < cnt; ++i) m.col(i) = ref_point(r, n, interior);
  return m;
}
inline int ncorners(RefEl r) { return static_cast<int>(r.NumNodes()); }

// ---- mesh description --------------------------------------------------------
enum Geo { kOmitted = 0, kO1 = 1, kO2 = 2, kPara = 3 };
struct Cell {
  std::vector<int> v;  // corners
  int geo = kO1;
};
struct SupEdge {
  int a, b;
  int geo = kO1;
};
struct Desc {
  int dw = 2;
  MatrixXd P;  // dw x N
  std::vector<Cell> cells;
  std::vector<SupEdge> edges;        // edges supplied to the factory
  std::map<Edge2, VectorXd> mid;     // true midpoints of curved edges
  std::string kind;
  bool curved() const { return !mid.empty(); }
  int np() const { return static_cast<int>(P.cols()); }
  VectorXd midpoint(int a, int b) const {
    auto it = mid.find(ekey(a, b));
    if (it != mid.end()) return it->second;
    return 0.5 * (P.col(a) + P.col(b));
  }
  // order of the shape and its coordinates
  int cell_order(int c) const { return cells[c].geo == kO2 ? 2 : 1; }
  MatrixXd cell_coords(int c) const {
    const auto& v = cells[c].v;
    const int n = v.size();
    MatrixXd m(dw, cells[c].geo == kO2 ? 2 * n : n);
    for (int i = 0; i < n; ++i) m.col(i) = P.col(v[i]);
    if (cells[c].geo == kO2)
      for (int i = 0; i < n; ++i) m.col(n + i) = midpoint(v[i], v[(i + 1) % n]);
    return m;
  }
  std::map<Edge2, std::vector<int>> edge_cells() const {
    std::map<Edge2, std::vector<int>> m;
    for (int c = 0; c < (int)cells.size(); ++c) {
      const auto& v = cells[c].v;
      for (std::size_t i = 0; i < v.size(); ++i) m[ekey(v[i], v[(i + 1) % v.size()])].push_back(c);
    }
    return m;
  }
  double diam() const {
    return P.cols() == 0 ? 1.0 : (P.rowwise().maxCoeff() - P.rowwise().minCoeff()).norm() + 1e-300;
  }
  mon::u64 hash() const {
    mon::u64 h = mon::mix(dw * 131 + P.cols());
    for (auto& c : cells) {
      h = mon::hcomb(h, c.geo);
      for (int i : c.v) h = mon::hcomb(h, i);
    }
    for (auto& e : edges) h = mon::hcomb(h, e.a * 1000 + e.b + e.geo * 7919);
    h = mon::hcomb(h, mid.size());
    return h;
  }
};

struct Opts {
  int max_cells = 40;
  int dw = 0;            // 0: random (2 mostly)
  bool tria = true, quad = true;
  bool curved = true;    // allow second-order shapes
  bool omitted = true;   // allow cells without geometry
  bool sup_edges = true; // allow supplied edges
  bool negative = true;  // allow negatively oriented cells
  bool closed = true;    // allow closed surfaces (dw 3)
  bool holes = true;
  bool scale = true;     // allow global affine rescaling
  bool affine_only = false;  // triangles straight, quads parallelograms
  bool disconnected = true;
  bool perturb = true;
  bool permute = true;   // random node/cell permutation and corner rotation
  bool nonmanifold = true;  // node-contact only configurations
  bool book = false;     // (3D) edges with more than two cells
};

// signed area of a planar polygon
inline double poly_area(const MatrixXd& P, const std::vector<int>& v) {
  double a = 0;
  for (std::size_t i = 0; i < v.size(); ++i) {
    const auto p = P.col(v[i]), q = P.col(v[(i + 1) % v.size()]);
    a += p(0) * q(1) - p(1) * q(0);
  }
  return 0.5 * a;
}
inline double tri_area(const VectorXd& a, const VectorXd& b, const VectorXd& c) {
  return 0.5 * ((b(0) - a(0)) * (c(1) - a(1)) - (b(1) - a(1)) * (c(0) - a(0)));
}
// all corner triangles clearly positive
inline bool convex_ok(const MatrixXd& P, const std::vector<int>& v, double rel = 0.08) {
  const int n = v.size();
  double l2 = 0;
  for (int i = 0; i < n; ++i) l2 = std::max(l2, (P.col(v[i]) - P.col(v[(i + 1) % n])).squaredNorm());
  for (int i = 0; i < n; ++i) {
    if (tri_area(P.col(v[(i + n - 1) % n]), P.col(v[i]), P.col(v[(i + 1) % n])) < rel * l2 * 0.5) return false;
  }
  return true;
}

namespace detail {
inline void grid(Rng& r, const Opts& o, Desc& d, bool wrap_x) {
  int nx = r.uni(wrap_x ? 3 : 1, 6), ny = r.uni(1, 6);
  while (nx * ny * (o.tria ? 2 : 1) > o.max_cells && (nx > (wrap_x ? 3 : 1) || ny > 1)) {
    if (nx > ny && nx > (wrap_x ? 3 : 1)) --nx; else if (ny > 1) --ny; else --nx;
  }
  const int cx = wrap_x ? nx : nx + 1;
  d.P.resize(2, cx * (ny + 1));
  auto id = [&](int i, int j) { return (i % cx) + cx * j; };
  double amp = (o.perturb && !o.affine_only && r.coin(0.8)) ? r.real(0.0, 0.22) : 0.0;
  MatrixXd off = MatrixXd::NullaryExpr(2, cx * (ny + 1), [&](Eigen::Index, Eigen::Index) { return r.real(-1, 1); });
  for (int attempt = 0;; ++attempt) {
    for (int j = 0; j <= ny; ++j)
      for (int i = 0; i < cx; ++i) {
        const double x = i + amp * off(0, id(i, j)), y = j + amp * off(1, id(i, j));
        if (wrap_x) {
          const double ph = 2 * M_PI * x / nx, rad = 1.5 + 0.6 * y;
          d.P.col(id(i, j)) = Vector2d(rad * std::cos(ph), rad * std::sin(ph));
        } else {
          d.P.col(id(i, j)) = Vector2d(x, y);
        }
      }
    if (!wrap_x) break;
    // a strongly perturbed ring may fold over
    bool fine = true;
    for (int j = 0; j < ny; ++j)
      for (int i = 0; i < nx; ++i) {
        std::vector<int> q{id(i, j), id(i, j + 1), id(i + 1, j + 1), id(i + 1, j)};
        fine = fine && convex_ok(d.P, q, 0.01);
      }
    if (fine || amp == 0) break;
    amp = attempt > 6 ? 0.0 : amp / 2;
  }
  const double pq = !o.quad ? 0.0 : !o.tria ? 1.0 : (r.coin(0.2) ? 0.0 : r.coin(0.2) ? 1.0 : r.real());
  for (int j = 0; j < ny; ++j)
    for (int i = 0; i < nx; ++i) {
      std::vector<int> q{id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)};
      if (wrap_x) std::reverse(q.begin(), q.end());
      if (poly_area(d.P, q) < 0) std::reverse(q.begin(), q.end());
      const bool cvx = convex_ok(d.P, q);
      if (o.quad && r.coin(pq) && cvx) {
        d.cells.push_back({q});
      } else if (o.tria) {
        if (cvx ? r.coin() : convex_ok(d.P, {q[0], q[1], q[2]}, 0.02) && convex_ok(d.P, {q[0], q[2], q[3]}, 0.02)) {
          d.cells.push_back({{q[0], q[1], q[2]}});
          d.cells.push_back({{q[0], q[2], q[3]}});
        } else {
          d.cells.push_back({{q[0], q[1], q[3]}});
          d.cells.push_back({{q[1], q[2], q[3]}});
        }
      } else {
        d.cells.push_back({q});
      }
    }
}
// incremental random triangulation with edge flips
inline void incremental(Rng& r, const Opts& o, Desc& d) {
  std::vector<Vector2d> p{{0, 0}, {4, 0}, {4, 4}, {0, 4}};
  std::vector<std::array<int, 3>> t{{0, 1, 2}, {0, 2, 3}};
  if (r.coin(0.2)) {
    p = {{0, 0}, {4, 0.3}, {1.0, 3.8}};
    t = {{0, 1, 2}};
  }
  const int target = r.uni(1, std::max(1, o.max_cells - 2));
  auto area = [&](int a, int b, int c) { return tri_area(p[a], p[b], p[c]); };
  auto good = [&](int a, int b, int c, double rel) {
    const double A = area(a, b, c);
    const double l = std::max({(p[a] - p[b]).squaredNorm(), (p[b] - p[c]).squaredNorm(), (p[c] - p[a]).squaredNorm()});
    return A > rel * l;
  };
  int guard = 0;
  while ((int)t.size() < target && ++guard < 400) {
    const int k = r.uni(0, (int)t.size() - 1);
    if (r.coin(0.5)) {  // insert point
      auto [a, b, c] = t[k];
      double w0 = r.real(0.2, 0.6), w1 = r.real(0.2, 0.6), w2 = r.real(0.2, 0.6);
      Vector2d q = (w0 * p[a] + w1 * p[b] + w2 * p[c]) / (w0 + w1 + w2);
      p.push_back(q);
      const int n = (int)p.size() - 1;
      if (good(a, b, n, 0.04) && good(b, c, n, 0.04) && good(c, a, n, 0.04)) {
        t[k] = {a, b, n};
        t.push_back({b, c, n});
        t.push_back({c, a, n});
      } else {
        p.pop_back();
      }
    } else {  // flip or split an edge of t[k]
      const int e = r.uni(0, 2);
      const int a = t[k][e], b = t[k][(e + 1) % 3], c = t[k][(e + 2) % 3];
      int m = -1, dd = -1;
      for (int q = 0; q < (int)t.size(); ++q) {
        if (q == k) continue;
        for (int f = 0; f < 3; ++f)
          if (t[q][f] == b && t[q][(f + 1) % 3] == a) {
            m = q;
            dd = t[q][(f + 2) % 3];
          }
      }
      if (m >= 0 && r.coin(0.6)) {
        if (good(a, dd, c, 0.04) && good(dd, b, c, 0.04)) {
          t[k] = {a, dd, c};
          t[m] = {dd, b, c};
        }
      } else {
        Vector2d q = p[a] + r.real(0.35, 0.65) * (p[b] - p[a]);
        p.push_back(q);
        const int n = (int)p.size() - 1;
        bool ok = good(a, n, c, 0.04) && good(n, b, c, 0.04);
        if (m >= 0) ok = ok && good(b, n, dd, 0.04) && good(n, a, dd, 0.04);
        if (!ok) {
          p.pop_back();
          continue;
        }
        t[k] = {a, n, c};
        t.push_back({n, b, c});
        if (m >= 0) {
          t[m] = {b, n, dd};
          t.push_back({n, a, dd});
        }
      }
    }
  }
  d.P.resize(2, p.size());
  for (std::size_t i = 0; i < p.size(); ++i) d.P.col(i) = p[i];
  // merge pairs into convex quads
  std::vector<bool> used(t.size(), false);
  const double pm = o.quad ? (r.coin(0.25) ? 0.0 : r.real(0.2, 1.0)) : 0.0;
  for (int k : r.perm((int)t.size())) {
    if (used[k]) continue;
    used[k] = true;
    bool merged = false;
    if (r.coin(pm)) {
      for (int e = 0; e < 3 && !merged; ++e) {
        const int a = t[k][e], b = t[k][(e + 1) % 3], c = t[k][(e + 2) % 3];
        for (int q = 0; q < (int)t.size() && !merged; ++q) {
          if (used[q]) continue;
          for (int f = 0; f < 3; ++f)
            if (t[q][f] == b && t[q][(f + 1) % 3] == a) {
              std::vector<int> v{a, t[q][(f + 2) % 3], b, c};
              if (convex_ok(d.P, v, 0.1)) {
                used[q] = true;
                d.cells.push_back({v});
                merged = true;
                break;
              }
            }
        }
      }
    }
    if (!merged) d.cells.push_back({{t[k][0], t[k][1], t[k][2]}});
  }
}
inline void fan(Rng& r, const Opts& o, Desc& d) {
  const bool closed = r.coin(0.6);
  const int k = closed ? r.uni(3, 9) : r.uni(1, 6);
  std::vector<Vector2d> p{{0, 0}};
  const double tot = closed ? 2 * M_PI : std::min(5.5, 0.9 * k);
  std::vector<int> rim;
  for (int i = 0; i < (closed ? k : k + 1); ++i) {
    const double ph = tot * (i + ((o.perturb && i && (closed || i < k)) ? 0.1 * r.real(-1, 1) : 0)) / k;
    p.push_back(r.real(0.9, 1.1) * Vector2d(std::cos(ph), std::sin(ph)));
    rim.push_back((int)p.size() - 1);
  }
  std::vector<std::vector<int>> cs;
  for (int i = 0; i < k; ++i) {
    const int a = rim[i], b = rim[(i + 1) % rim.size()];
    if (o.quad && (!o.tria || r.coin())) {
      p.push_back(0.85 * (p[a] + p[b]) * (1.0 + 0.1 * r.real()));
      MatrixXd Q(2, 4);
      Q << p[0], p[a], p.back(), p[b];
      if (convex_ok(Q, {0, 1, 2, 3}) || !o.tria) {
        cs.push_back({0, a, (int)p.size() - 1, b});
        continue;
      }
      p.pop_back();
    }
    cs.push_back({0, a, b});
  }
  d.P.resize(2, p.size());
  for (std::size_t i = 0; i < p.size(); ++i) d.P.col(i) = p[i];
  for (auto& c : cs) d.cells.push_back({c});
}
inline void closed_surface(Rng& r, const Opts& o, Desc& d) {
  d.dw = 3;
  if (o.tria && r.coin(0.4)) {
    d.P.resize(3, 6);
    d.P << 1, -1, 0, 0, 0, 0, 0, 0, 1, -1, 0, 0, 0, 0, 0, 0, 1, -1;
    for (int sx = 0; sx < 2; ++sx)
      for (int sy = 0; sy < 2; ++sy)
        for (int sz = 0; sz < 2; ++sz) d.cells.push_back({{sx, 2 + sy, 4 + sz}});
    return;
  }
  const int nu = r.uni(3, 6), nv = r.uni(3, 5);
  d.P.resize(3, nu * nv);
  auto id = [&](int i, int j) { return (i % nu) + nu * (j % nv); };
  for (int j = 0; j < nv; ++j)
    for (int i = 0; i < nu; ++i) {
      const double u = 2 * M_PI * i / nu, v = 2 * M_PI * j / nv;
      d.P.col(id(i, j)) << (3 + std::cos(v)) * std::cos(u), (3 + std::cos(v)) * std::sin(u), std::sin(v);
    }
  const double pq = !o.quad ? 0.0 : !o.tria ? 1.0 : r.real();
  for (int j = 0; j < nv; ++j)
    for (int i = 0; i < nu; ++i) {
      std::vector<int> q{id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)};
      if (r.coin(pq)) {
        d.cells.push_back({q});
      } else {
        d.cells.push_back({{q[0], q[1], q[2]}});
        d.cells.push_back({{q[0], q[2], q[3]}});
      }
    }
}
// cells joined along one common edge, like the pages of a book
inline void book(Rng& r, const Opts& o, Desc& d) {
  const int k = r.uni(3, 6);
  d.dw = 3;
  std::vector<Eigen::Vector3d> p{{0, 0, 0}, {0, 0, 1}};
  for (int i = 0; i < k; ++i) {
    const double ph = 2 * M_PI * i / k, c = std::cos(ph), s = std::sin(ph);
    if (o.quad && (!o.tria || r.coin())) {
      p.emplace_back(c, s, 1);
      p.emplace_back(c, s, 0);
      const int n = (int)p.size();
      d.cells.push_back({{0, 1, n - 2, n - 1}});
    } else {
      p.emplace_back(c, s, 0.5);
      d.cells.push_back({{0, 1, (int)p.size() - 1}});
    }
  }
  d.P.resize(3, p.size());
  for (std::size_t i = 0; i < p.size(); ++i) d.P.col(i) = p[i];
}
}  // namespace detail

// drop unused nodes, renumber
inline void compact(Desc& d) {
  std::vector<int> m(d.P.cols(), -1);
  int n = 0;
  for (auto& c : d.cells)
    for (int& i : c.v) {
      if (m[i] < 0) m[i] = n++;
      i = m[i];
    }
  MatrixXd Q(d.P.rows(), n);
  for (int i = 0; i < d.P.cols(); ++i)
    if (m[i] >= 0) Q.col(m[i]) = d.P.col(i);
  std::map<Edge2, VectorXd> mm;
  for (auto& [e, x] : d.mid)
    if (m[e.first] >= 0 && m[e.second] >= 0) mm[ekey(m[e.first], m[e.second])] = x;
  d.P = Q;
  d.mid = mm;
}

// smallest sampled Jacobian "determinant" has constant sign & reasonable size
inline bool shape_ok(const Desc& d, int c) {
  const int n = d.cells[c].v.size(), ord = d.cell_order(c);
  const MatrixXd cc = d.cell_coords(c);
  double lo = 1e300, hi = -1e300;
  VectorXd nref;
  for (int i = 0; i <= 6; ++i)
    for (int j = 0; j <= 6; ++j) {
      VectorXd x(2);
      x << i / 6.0, j / 6.0;
      if (n == 3 && i + j > 6) continue;
      MatrixXd J = shape_jac(n, ord, cc, x);
      double det;
      if (d.dw == 2) {
        det = J.determinant();
      } else {
        Eigen::Vector3d nn = Eigen::Vector3d(J.col(0)).cross(Eigen::Vector3d(J.col(1)));
        if (nref.size() == 0) nref = nn;
        det = nn.dot(Eigen::Vector3d(nref)) / (nref.norm() + 1e-300);
      }
      lo = std::min(lo, det);
      hi = std::max(hi, det);
    }
  if (lo < 0 && hi > 0) return false;
  const double a = std::min(std::abs(lo), std::abs(hi)), b = std::max(std::abs(lo), std::abs(hi));
  return a > 0.05 * b;
}

inline Desc random_desc(Rng& r, const Opts& o) {
  for (int attempt = 0; attempt < 20; ++attempt) {
    Desc d;
    const int dw = o.dw ? o.dw : (r.coin(0.85) ? 2 : 3);
    d.dw = 2;
    bool closed = false;
    if (dw == 3 && o.closed && r.coin(0.4) && !o.affine_only) {
      if (o.book && r.coin(0.5)) {
        detail::book(r, o, d);
        d.kind = "book";
      } else {
        detail::closed_surface(r, o, d);
        d.kind = "closed";
      }
      closed = true;
    } else {
      const int k = r.uni(0, 9);
      if (k <= 3) {
        detail::grid(r, o, d, false);
        d.kind = "grid";
      } else if (k <= 5 && o.tria) {
        Opts oo = o;
        if (o.affine_only) oo.quad = false;
        detail::incremental(r, oo, d);
        d.kind = "incr";
      } else if (k == 6 && !o.affine_only) {
        detail::grid(r, o, d, true);
        d.kind = "ring";
      } else if (k == 7 && (!o.affine_only || !o.quad)) {
        detail::fan(r, o, d);
        d.kind = "fan";
      } else if (k == 8) {
        Opts oo = o;
        oo.max_cells = 1;
        if (o.quad && (!o.tria || r.coin())) {
          d.P.resize(2, 4);
          d.P << 0, 1, 1.2, -0.1, 0, 0.1, 1.1, 0.9;
          if (o.affine_only) d.P << 0, 1, 1.2, 0.2, 0, 0.1, 1.1, 1.0;
          d.cells.push_back({{0, 1, 2, 3}});
        } else {
          d.P.resize(2, 3);
          d.P << 0, 1, 0.3, 0, 0.2, 0.9;
          d.cells.push_back({{0, 1, 2}});
        }
        d.kind = "single";
      } else {
        detail::grid(r, o, d, false);
        d.kind = "grid";
      }
    }
    bool bad = false;
    if (!closed)
      for (auto& c : d.cells)
        if (!convex_ok(d.P, c.v, 0.02)) bad = true;
    if (bad) continue;
    // holes
    if (o.holes && d.cells.size() > 2 && r.coin(0.3)) {
      const int rem = r.uni(1, std::max(1, (int)d.cells.size() / 4));
      std::vector<Cell> keep;
      auto p = r.perm((int)d.cells.size());
      std::set<int> gone(p.begin(), p.begin() + rem);
      for (int i = 0; i < (int)d.cells.size(); ++i)
        if (!gone.count(i)) keep.push_back(d.cells[i]);
      d.cells = keep;
      d.kind += "+holes";
    }
    compact(d);
    if (!o.nonmanifold && !closed) {
      // every node: its incident cells are edge-connected
      auto ec = d.edge_cells();
      bool nm = false;
      for (int v = 0; v < d.np() && !nm; ++v) {
        std::vector<int> cs;
        for (int c = 0; c < (int)d.cells.size(); ++c)
          if (std::count(d.cells[c].v.begin(), d.cells[c].v.end(), v)) cs.push_back(c);
        std::set<int> seen{cs[0]};
        std::vector<int> st{cs[0]};
        while (!st.empty()) {
          const int c = st.back();
          st.pop_back();
          const auto& w = d.cells[c].v;
          for (std::size_t i = 0; i < w.size(); ++i) {
            const int a = w[i], b = w[(i + 1) % w.size()];
            if (a != v && b != v) continue;
            for (int q : ec[ekey(a, b)])
              if (seen.insert(q).second) st.push_back(q);
          }
        }
        if (seen.size() != cs.size()) nm = true;
      }
      if (nm) continue;
    }
    // disconnected copy
    if (o.disconnected && !closed && (int)d.cells.size() * 2 <= o.max_cells && r.coin(0.08)) {
      const int n = d.np(), m = (int)d.cells.size();
      MatrixXd Q(2, 2 * n);
      const double w = d.diam() * 1.5;
      Q.leftCols(n) = d.P;
      Q.rightCols(n) = d.P.colwise() + Vector2d(w, 0.1 * w);
      d.P = Q;
      for (int i = 0; i < m; ++i) {
        Cell c = d.cells[i];
        for (int& x : c.v) x += n;
        d.cells.push_back(c);
      }
      d.kind += "+twice";
    }
    // affine change of coordinates (orientation preserving)
    if (o.scale && !closed && r.coin(0.6)) {
      const double ph = r.real(0, 2 * M_PI);
      Eigen::Matrix2d R, Sc;
      R << std::cos(ph), -std::sin(ph), std::sin(ph), std::cos(ph);
      const double s = r.coin(0.3) ? std::pow(10.0, r.real(-3, 3)) : r.real(0.5, 2.0);
      Sc << s, s * r.real(-0.5, 0.5), 0, s * r.real(0.5, 1.5);
      d.P = (R * Sc * d.P).eval();
      d.P.colwise() += Vector2d(r.real(-2, 2), r.real(-2, 2)) * s;
    }
    // lift to 3D
    if (dw == 3 && !closed) {
      MatrixXd Q(3, d.np());
      const double D = d.diam();
      const Vector2d mean = d.P.rowwise().mean();
      const bool flat = o.affine_only || r.coin(0.3);
      const double c1 = r.real(-0.4, 0.4), c2 = r.real(-0.4, 0.4), c3 = flat ? 0 : r.real(-0.5, 0.5) / D;
      for (int i = 0; i < d.np(); ++i) {
        const Vector2d x = d.P.col(i) - mean;
        Q.col(i) << d.P(0, i), d.P(1, i), c1 * x(0) + c2 * x(1) + c3 * x(0) * x(1);
      }
      d.P = Q;
      d.kind += "+3d";
    }
    d.dw = dw;
    // permutations
    if (o.permute) {
      auto pn = r.perm(d.np());
      MatrixXd Q(d.dw, d.np());
      for (int i = 0; i < d.np(); ++i) Q.col(pn[i]) = d.P.col(i);
      d.P = Q;
      for (auto& c : d.cells) {
        for (int& i : c.v) i = pn[i];
        std::rotate(c.v.begin(), c.v.begin() + r.uni(0, (int)c.v.size() - 1), c.v.end());
      }
      if (o.negative && r.coin(0.5)) {
        const double pr = r.real();
        for (auto& c : d.cells)
          if (r.coin(pr)) std::reverse(c.v.begin(), c.v.end());
      }
      r.shuffle(d.cells);
    }
    // geometry kinds
    const bool allow_omit = o.omitted;
    const int style = r.uni(0, 5);
    auto ec = d.edge_cells();
    if (o.curved && !o.affine_only && style <= 2) {
      const double pc = style == 0 ? 1.0 : r.real(0.1, 0.9);
      const double amp = r.real(0.02, 0.12);
      std::set<int> need;
      for (auto& [e, cs] : ec)
        if (r.coin(pc)) {
          const VectorXd t = d.P.col(e.second) - d.P.col(e.first);
          VectorXd off(d.dw);
          for (int i = 0; i < d.dw; ++i) off(i) = r.real(-1, 1);
          d.mid[e] = 0.5 * (d.P.col(e.first) + d.P.col(e.second)) + amp * t.norm() * off;
          for (int c : cs) need.insert(c);
        }
      for (int c = 0; c < (int)d.cells.size(); ++c) {
        d.cells[c].geo = need.count(c) ? kO2 : (allow_omit && r.coin(0.3)) ? kOmitted : r.coin(0.6) ? kO1 : kO2;
      }
      // flatten until all shapes are regular
      for (int it = 0; it < 12; ++it) {
        bool ok = true;
        for (int c = 0; c < (int)d.cells.size(); ++c)
          if (!shape_ok(d, c)) {
            ok = false;
            const auto& v = d.cells[c].v;
            for (std::size_t i = 0; i < v.size(); ++i) {
              auto f = d.mid.find(ekey(v[i], v[(i + 1) % v.size()]));
              if (f != d.mid.end()) {
                const VectorXd m0 = 0.5 * (d.P.col(f->first.first) + d.P.col(f->first.second));
                f->second = it < 10 ? VectorXd(m0 + 0.5 * (f->second - m0)) : m0;
              }
            }
          }
        if (ok) break;
      }
      d.kind += "+curved";
    } else if (allow_omit && style == 3) {
      for (auto& c : d.cells) c.geo = kOmitted;
    } else if (allow_omit && style == 4) {
      for (auto& c : d.cells) c.geo = r.coin() ? kOmitted : kO1;
    } else {
      for (auto& c : d.cells) c.geo = kO1;
    }
    if (o.affine_only)
      for (auto& c : d.cells)
        if (c.v.size() == 4 && c.geo == kO1 && r.coin()) c.geo = kPara;
    bad = false;
    for (int c = 0; c < (int)d.cells.size(); ++c)
      if (!shape_ok(d, c)) bad = true;
    if (bad) continue;
    // supplied edges
    if (o.sup_edges && r.coin(0.5)) {
      const double pe = r.coin(0.3) ? 1.0 : r.real();
      std::vector<Edge2> es;
      for (auto& [e, cs] : ec)
        if (r.coin(pe)) es.push_back(e);
      r.shuffle(es);
      for (auto& e : es) {
        SupEdge s;
        const bool f = r.coin();
        s.a = f ? e.first : e.second;
        s.b = f ? e.second : e.first;
        s.geo = d.mid.count(e) ? kO2 : (o.curved && !o.affine_only && r.coin(0.2)) ? kO2 : kO1;
        if (o.omitted && r.coin(0.3)) s.geo = kOmitted;
        d.edges.push_back(s);
      }
    }
    return d;
  }
  mon::discard("mesh generation failed");
}

inline std::unique_ptr<lf::geometry::Geometry> make_geo(int n, int kind, const MatrixXd& c) {
  using namespace lf::geometry;
  if (kind == kOmitted) return nullptr;
  if (n == 1) return std::make_unique<Point>(VectorXd(c.col(0)));
  if (n == 2) {
    if (kind == kO2) return std::make_unique<SegmentO2>(c);
    return std::make_unique<SegmentO1>(c);
  }
  if (n == 3) {
    if (kind == kO2) return std::make_unique<TriaO2>(c);
    return std::make_unique<TriaO1>(c);
  }
  if (kind == kO2) return std::make_unique<QuadO2>(c);
  if (kind == kPara) return std::make_unique<Parallelogram>(c);
  return std::make_unique<QuadO1>(c);
}

// feed the description to a factory
inline void feed(const Desc& d, lf::mesh::MeshFactory& f) {
  for (int i = 0; i < d.np(); ++i) {
    const auto id = f.AddPoint(VectorXd(d.P.col(i)));
    MON_CHECK((int)id == i, "factory.point_index", "AddPoint returned " << id << " for point " << i);
  }
  for (std::size_t i = 0; i < d.edges.size(); ++i) {
    const auto& e = d.edges[i];
    MatrixXd c(d.dw, e.geo == kO2 ? 3 : 2);
    c.col(0) = d.P.col(e.a);
    c.col(1) = d.P.col(e.b);
    if (e.geo == kO2) c.col(2) = d.midpoint(e.a, e.b);
    const std::array<unsigned, 2> nd{(unsigned)e.a, (unsigned)e.b};
    const auto id = f.AddEntity(RefEl::kSegment(), nd, make_geo(2, e.geo, c));
    MON_CHECK(id == i, "factory.edge_index", "AddEntity returned " << id << " for edge " << i);
  }
  for (std::size_t i = 0; i < d.cells.size(); ++i) {
    const auto& c = d.cells[i];
    std::vector<unsigned> nd(c.v.begin(), c.v.end());
    const auto id = f.AddEntity(ref_of((int)c.v.size()), nd, make_geo((int)c.v.size(), c.geo, d.cell_coords((int)i)));
    MON_CHECK(id == i, "factory.cell_index", "AddEntity returned " << id << " for cell " << i);
  }
}
inline std::shared_ptr<lf::mesh::Mesh> build(const Desc& d) {
  lf::mesh::hybrid2d::MeshFactory f(d.dw);
  feed(d, f);
  return f.Build();
}
inline std::string describe(const Desc& d) {
  std::ostringstream s;
  int nt = 0, nq = 0;
  for (auto& c : d.cells) (c.v.size() == 3 ? nt : nq)++;
  s << d.kind << " dw=" << d.dw << " np=" << d.np() << " tria=" << nt << " quad=" << nq << " supplied_edges="
    << d.edges.size() << " curved_edges=" << d.mid.size() << " c0=[";
  for (int i : d.cells[0].v) s << i << " ";
  s << "]";
  return s.str();
}
}  // namespace gen
