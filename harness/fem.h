// Finite element helpers: differentiation by Chebyshev-Lobatto sampling, own
// Gauss rules, random spaces, random polynomials.
#pragma once
#include <lf/fe/fe.h>
#include <lf/uscalfe/uscalfe.h>

#include "audit.h"

namespace fem {
using namespace gen;
using lf::fe::ScalarFESpace;
using lf::fe::ScalarReferenceFiniteElement;
using cplx = std::complex<double>;

// points on [0,1] and the matrix mapping values of a polynomial of degree <= n
// at these points to the values of its derivative
struct Lobatto {
  VectorXd t;
  MatrixXd D;
  explicit Lobatto(int n) : t(n + 1), D(n + 1, n + 1) {
    for (int j = 0; j <= n; ++j) t(j) = 0.5 * (1 - std::cos(M_PI * j / n));
    VectorXd w(n + 1);
    for (int j = 0; j <= n; ++j) w(j) = (j % 2 ? -1.0 : 1.0) * (j == 0 || j == n ? 0.5 : 1.0);
    for (int i = 0; i <= n; ++i) {
      double s = 0;
      for (int j = 0; j <= n; ++j)
        if (i != j) {
          // t_i - t_j without cancellation
          const double d = std::sin(0.5 * M_PI * (i + j) / n) * std::sin(0.5 * M_PI * (i - j) / n);
          D(i, j) = w(j) / w(i) / d;
          s += D(i, j);
        }
      D(i, i) = -s;
    }
  }
};
inline const Lobatto& lobatto(int n) {
  static std::map<int, Lobatto> m;
  auto it = m.find(n);
  if (it == m.end()) it = m.emplace(n, Lobatto(n)).first;
  return it->second;
}

// Gauss-Legendre on [0,1], Newton in long double
inline std::pair<VectorXd, VectorXd> gauss(int n) {
  static std::map<int, std::pair<VectorXd, VectorXd>> cache;
  auto it = cache.find(n);
  if (it != cache.end()) return it->second;
  VectorXd x(n), w(n);
  for (int i = 0; i < n; ++i) {
    long double z = std::cos(3.14159265358979323846L * (i + 0.75L) / (n + 0.5L)), dp = 1;
    for (int it2 = 0; it2 < 60; ++it2) {
      long double a = 1, b = z;
      for (int k = 2; k <= n; ++k) {
        const long double c = ((2 * k - 1) * z * b - (k - 1) * a) / k;
        a = b;
        b = c;
      }
      if (n == 1) b = z, a = 1;
      dp = n * (z * b - a) / (z * z - 1);
      const long double dz = b / dp;
      z -= dz;
      if (std::abs(dz) < 1e-18L) break;
    }
    x(i) = static_cast<double>((1 - z) / 2);
    w(i) = static_cast<double>(1 / ((1 - z * z) * dp * dp));
  }
  return cache[n] = {x, w};
}
// own rule for an element with nc corners
struct Rule {
  MatrixXd x;
  VectorXd w;
};
inline const Rule& rule(int nc, int n) {
  static std::map<std::pair<int, int>, Rule> cache;
  auto it = cache.find({nc, n});
  if (it != cache.end()) return it->second;
  Rule r;
  auto [g, gw] = gauss(n);
  if (nc == 1) {
    r.x.resize(0, 1);
    r.w = VectorXd::Ones(1);
  } else if (nc == 2) {
    r.x = g.transpose();
    r.w = gw;
  } else {
    r.x.resize(2, n * n);
    r.w.resize(n * n);
    for (int i = 0, k = 0; i < n; ++i)
      for (int j = 0; j < n; ++j, ++k) {
        if (nc == 4) {
          r.x(0, k) = g(i);
          r.x(1, k) = g(j);
          r.w(k) = gw(i) * gw(j);
        } else {
          r.x(0, k) = g(i) * (1 - g(j));
          r.x(1, k) = g(j);
          r.w(k) = gw(i) * gw(j) * (1 - g(j));
        }
      }
  }
  return cache[{nc, n}] = r;
}

// random polynomial in dim variables of total degree q (or maximal degree q),
// as combination of products of shifted Legendre polynomials
inline double leg01(int n, double x) {
  double a = 1, b = 2 * x - 1;
  if (n == 0) return 1;
  for (int k = 2; k <= n; ++k) {
    const double c = ((2 * k - 1) * (2 * x - 1) * b - (k - 1) * a) / k;
    a = b;
    b = c;
  }
  return b;
}
struct RefPoly {
  std::map<std::pair<int, int>, double> c;
  RefPoly(Rng& r, int q, int dim, bool max_degree) {
    for (int i = 0; i <= q; ++i)
      for (int j = 0; j <= (dim < 2 ? 0 : max_degree ? q : q - i); ++j) c[{i, j}] = r.real(-1, 1);
  }
  double operator()(const VectorXd& x) const {
    double s = 0;
    for (auto& [k, v] : c) s += v * leg01(k.first, x(0)) * (x.size() > 1 ? leg01(k.second, x(1)) : 1);
    return s;
  }
};
// random polynomial of total degree q in physical coordinates, centred/scaled
struct PhysPoly {
  int q;
  VectorXd x0;
  double s;
  std::vector<std::pair<std::vector<int>, double>> c;
  PhysPoly(Rng& r, int q_, const MatrixXd& P) : q(q_) {
    const int d = static_cast<int>(P.rows());
    x0 = P.rowwise().mean();
    s = 0.7 * (P.colwise() - x0).cwiseAbs().maxCoeff() + 1e-300;
    std::function<void(int, int, std::vector<int>)> rec = [&](int k, int left, std::vector<int> e) {
      if (k == d) {
        c.push_back({e, r.real(-1, 1)});
        return;
      }
      for (int a = 0; a <= left; ++a) {
        auto f = e;
        f.push_back(a);
        rec(k + 1, left - a, f);
      }
    };
    rec(0, q, {});
  }
  double operator()(const VectorXd& x) const {
    const VectorXd y = (x - x0) / s;
    double v = 0;
    for (auto& [e, k] : c) {
      double t = k;
      for (std::size_t i = 0; i < e.size(); ++i)
        for (int a = 0; a < e[i]; ++a) t *= y(i);
      v += t;
    }
    return v;
  }
  VectorXd grad(const VectorXd& x) const {
    const VectorXd y = (x - x0) / s;
    VectorXd g = VectorXd::Zero(x.size());
    for (auto& [e, k] : c)
      for (std::size_t d = 0; d < e.size(); ++d) {
        if (e[d] == 0) continue;
        double t = k * e[d] / s;
        for (std::size_t i = 0; i < e.size(); ++i)
          for (int a = 0; a < e[i] - (i == d ? 1 : 0); ++a) t *= y(i);
        g(d) += t;
      }
    return g;
  }
  // trace of the Hessian contracted with a constant matrix A
  double div_grad(const MatrixXd& A, const VectorXd& x) const {
    const VectorXd y = (x - x0) / s;
    double r = 0;
    for (auto& [e, k] : c)
      for (std::size_t d = 0; d < e.size(); ++d)
        for (std::size_t f = 0; f < e.size(); ++f) {
          auto ex = e;
          double t = k * A(d, f);
          t *= ex[d];
          if (ex[d] == 0) continue;
          ex[d]--;
          t *= ex[f];
          if (ex[f] == 0) continue;
          ex[f]--;
          t /= s * s;
          for (std::size_t i = 0; i < ex.size(); ++i)
            for (int a = 0; a < ex[i]; ++a) t *= y(i);
          r += t;
        }
    return r;
  }
};

// random scalar space on a mesh
template <class S>
struct Space {
  std::shared_ptr<const ScalarFESpace<S>> sp;
  int pmin = 1, pmax = 1;
  std::string name;
  bool lagrange = false;
  bool uniform = true;
};
template <class S>
Space<S> make_space(Rng& r, std::shared_ptr<const lf::mesh::Mesh> m, int kind, int pcap = 6) {
  Space<S> s;
  if (kind <= 3) {
    s.pmin = s.pmax = kind;
    s.lagrange = true;
    s.name = "lagrange" + std::to_string(kind);
    if (kind == 1) s.sp = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<S>>(m);
    if (kind == 2) s.sp = std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<S>>(m);
    if (kind == 3) s.sp = std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<S>>(m);
  } else if (kind == 4) {
    const int p = r.uni(1, pcap);
    s.pmin = s.pmax = p;
    s.name = "hierarchic" + std::to_string(p);
    s.sp = std::make_shared<lf::fe::HierarchicScalarFESpace<S>>(m, static_cast<unsigned>(p));
  } else {
    s.uniform = false;
    auto deg = std::make_shared<std::array<std::vector<unsigned>, 2>>();
    s.pmin = 99;
    for (int cd = 0; cd < 2; ++cd) {
      const int lo = r.uni(1, 2), hi = r.uni(lo, pcap);
      for (unsigned i = 0; i < m->NumEntities(cd); ++i) {
        const int p = r.uni(lo, hi);
        (*deg)[cd].push_back(p);
        s.pmin = std::min(s.pmin, p);
        s.pmax = std::max(s.pmax, p);
      }
    }
    const lf::mesh::Mesh* mp = m.get();
    s.name = "hierarchic" + std::to_string(s.pmin) + "-" + std::to_string(s.pmax);
    s.sp = std::make_shared<lf::fe::HierarchicScalarFESpace<S>>(m, [deg, mp](const Entity& e) -> unsigned {
      return e.Codim() == 2 ? 1 : (*deg)[e.Codim()][mp->Index(e)];
    });
  }
  return s;
}
template <class S>
Space<S> random_space(Rng& r, std::shared_ptr<const lf::mesh::Mesh> m, int pcap = 6) {
  static const int kinds[] = {1, 2, 3, 4, 5, 5};
  return make_space<S>(r, m, kinds[r.uni(0, 5)], pcap);
}
template <class S>
S rand_scalar(Rng& r) {
  if constexpr (std::is_same_v<S, double>) {
    return r.real(-1, 1);
  } else {
    return S(r.real(-1, 1), r.real(-1, 1));
  }
}
template <class S>
Eigen::Matrix<S, Eigen::Dynamic, 1> rand_vec(Rng& r, int n) {
  Eigen::Matrix<S, Eigen::Dynamic, 1> v(n);
  for (int i = 0; i < n; ++i) v(i) = rand_scalar<S>(r);
  return v;
}
// local coordinates, in a cell with nc corners, of the point at parameter t of
// its local side i (t runs from the first to the second end point)
inline MatrixXd side_points(int nc, int i, const VectorXd& t) {
  MatrixXd c(2, nc);
  if (nc == 3)
    c << 0, 1, 0, 0, 0, 1;
  else
    c << 0, 1, 1, 0, 0, 0, 1, 1;
  MatrixXd r(2, t.size());
  for (int k = 0; k < t.size(); ++k) r.col(k) = (1 - t(k)) * c.col(i) + t(k) * c.col((i + 1) % nc);
  return r;
}
inline bool affine_cell(const Entity& e) {
  // constant derivative?
  if (e.RefEl() == RefEl::kPoint()) return true;
  const int nc = e.RefEl().NumNodes();
  MatrixXd x(e.RefEl().Dimension(), 3);
  if (nc == 2)
    x << 0, 0.5, 1;
  else if (nc == 3)
    x << 0, 1, 0, 0, 0, 1;
  else
    x << 0, 1, 0.25, 0, 1, 0.75;
  const MatrixXd J = e.Geometry()->Jacobian(x);
  const int d = x.rows();
  const double s = J.cwiseAbs().maxCoeff();
  return (J.middleCols(0, d) - J.middleCols(d, d)).cwiseAbs().maxCoeff() < 1e-12 * s &&
         (J.middleCols(0, d) - J.middleCols(2 * d, d)).cwiseAbs().maxCoeff() < 1e-12 * s;
}
// exact-in-practice integral of a function of (cell, local points, jacobian)
inline double measure(const MatrixXd& J) {
  return std::sqrt(std::abs((J.transpose() * J).determinant()));
}
}  // namespace fem
