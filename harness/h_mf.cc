// N01: algebra of mesh functions.
#include "fem.h"

using namespace mon;
using namespace fem;

namespace {
namespace lmu = lf::mesh::utils;
using lmu::MeshFunctionConstant;
using lmu::MeshFunctionGlobal;

// a type that is neither scalar nor matrix: intervals-like pair with its own
// non-commutative product
struct X {
  double a = 0, b = 1;
  friend X operator+(const X& u, const X& v) { return {u.a + v.a, u.b + v.b}; }
  friend X operator-(const X& u, const X& v) { return {u.a - v.a, u.b - v.b}; }
  friend X operator*(const X& u, const X& v) { return {u.a * v.b + u.b, u.b * v.a}; }
  friend X operator-(const X& u) { return {-u.a, -u.b}; }
  friend bool operator==(const X& u, const X& v) { return u.a == v.a && u.b == v.b; }
};

// coefficients of a value, row by row
struct Val {
  int r = 0, c = 0;
  std::vector<cplx> v;
};
inline Val val(double x) { return {1, 1, {cplx(x)}}; }
inline Val val(float x) { return {1, 1, {cplx(x)}}; }
inline Val val(int x) { return {1, 1, {cplx(x)}}; }
inline Val val(cplx x) { return {1, 1, {x}}; }
inline Val val(const X& x) { return {1, 2, {cplx(x.a), cplx(x.b)}}; }
template <class D>
Val val(const Eigen::DenseBase<D>& m) {
  Val v{(int)m.rows(), (int)m.cols(), {}};
  for (int i = 0; i < v.r; ++i)
    for (int j = 0; j < v.c; ++j) v.v.push_back(cplx(m.derived()(i, j)));
  return v;
}
template <class T>
constexpr bool is_array = false;
template <class S, int R, int C, int O, int A, int B>
constexpr bool is_array<Eigen::Array<S, R, C, O, A, B>> = true;
template <class T>
constexpr bool is_scalar = std::is_arithmetic_v<T> || std::is_same_v<T, cplx>;

inline Val zip(const Val& a, const Val& b, int sign) {
  Val r = a;
  for (std::size_t i = 0; i < r.v.size(); ++i) r.v[i] = a.v[i] + double(sign) * b.v[i];
  return r;
}
inline Val scale(cplx s, const Val& a) {
  Val r = a;
  for (auto& x : r.v) x *= s;
  return r;
}
inline Val matmul(const Val& a, const Val& b) {
  Val r{a.r, b.c, std::vector<cplx>(a.r * b.c)};
  for (int i = 0; i < a.r; ++i)
    for (int j = 0; j < b.c; ++j)
      for (int k = 0; k < a.c; ++k) r.v[i * b.c + j] += a.v[i * a.c + k] * b.v[k * b.c + j];
  return r;
}
template <class A, class B>
Val times(const A& a, const B& b) {
  if constexpr (std::is_same_v<A, X>) {
    return val(a * b);
  } else if constexpr (is_scalar<A>) {
    return scale(val(a).v[0], val(b));
  } else if constexpr (is_scalar<B>) {
    return scale(val(b).v[0], val(a));
  } else if constexpr (is_array<A>) {
    Val r = val(a);
    const Val q = val(b);
    for (std::size_t i = 0; i < r.v.size(); ++i) r.v[i] *= q.v[i];
    return r;
  } else {
    return matmul(val(a), val(b));
  }
}
inline bool same(const Val& a, const Val& b) {
  if (a.r != b.r || a.c != b.c || a.v.size() != b.v.size()) return false;
  double s = 1e-300, e = 0;
  for (std::size_t i = 0; i < a.v.size(); ++i) s = std::max(s, std::abs(b.v[i])), e = std::max(e, std::abs(a.v[i] - b.v[i]));
  // values are of order one: cancellation leaves absolute errors
  return e <= 1e-12 * (s + 1);
}
inline std::string show(const Val& a) {
  std::ostringstream o;
  o << a.r << "x" << a.c << "[";
  for (auto& x : a.v) o << x << " ";
  o << "]";
  return o.str();
}

// deterministic pseudo-random value from entity, point and salt
inline double h01(u64 h) { return double(mix(h) >> 11) / 9007199254740992.0 * 2 - 1; }
template <class T>
struct Gen {
  static T make(u64 h, int, int) {
    if constexpr (std::is_same_v<T, X>) {
      return X{h01(h), h01(h + 7)};
    } else if constexpr (std::is_same_v<T, cplx>) {
      return cplx(h01(h), h01(h + 7));
    } else if constexpr (std::is_integral_v<T>) {
      return T(h % 19) - T(9);
    } else {
      return T(h01(h));
    }
  }
};
template <class T>
  requires requires(T t) { t.rows(); }
struct Gen<T> {
  static T make(u64 h, int r, int c) {
    T m;
    if constexpr (T::RowsAtCompileTime == Eigen::Dynamic || T::ColsAtCompileTime == Eigen::Dynamic) m.resize(r, c);
    for (int i = 0; i < m.rows(); ++i)
      for (int j = 0; j < m.cols(); ++j) m(i, j) = Gen<typename T::Scalar>::make(h * 1315423911ULL + i * 17 + j * 101 + 3, 0, 0);
    return m;
  }
};
// mesh function with values depending on entity and point
template <class T>
struct Leaf {
  const lf::mesh::Mesh* m;
  u64 salt;
  int r = 2, c = 2;
  std::vector<T> operator()(const Entity& e, const MatrixXd& local) const {
    std::vector<T> v;
    v.reserve(local.cols());
    for (int k = 0; k < local.cols(); ++k) {
      u64 h = hcomb(salt, m->Index(e) * 4 + e.Codim());
      for (int d = 0; d < local.rows(); ++d) h = hcomb(h, (u64)std::llround(local(d, k) * 1e12));
      v.push_back(Gen<T>::make(h, r, c));
    }
    return v;
  }
};
template <class T>
Leaf<T> leaf(const lf::mesh::Mesh& m, Rng& r, int rows = 2, int cols = 2) {
  return {&m, r.next(), rows, cols};
}

struct Ctx {
  Rng& rng;
  std::shared_ptr<const lf::mesh::Mesh> m;
  std::string tag;
  template <class F>
  void at(F&& f) {  // some entities of every kind, various numbers of points
    for (unsigned cd = 0; cd < 3; ++cd) {
      const int n = m->NumEntities(cd);
      for (int rep = 0; rep < 2; ++rep) {
        const Entity* e = m->EntityByIndex(cd, rng.uni(0, n - 1));
        const int k = rng.coin(0.3) ? 1 : rng.uni(1, 17);
        f(*e, cd == 2 ? MatrixXd(0, k) : ref_points(rng, e->RefEl().NumNodes(), k));
      }
    }
  }
};
template <class MF, class O>
void agree(Ctx& c, const char* what, const MF& f, O&& oracle) {
  // copies and moved-to objects are the same function
  MF g(f);
  MF h(std::move(g));
  c.at([&](const Entity& e, const MatrixXd& x) {
    const auto v = c.rng.coin() ? f(e, x) : h(e, x);
    const std::vector<Val> want = oracle(e, x);
    MON_REQUIRE(v.size() == want.size(), what, c.tag << " " << v.size() << " values for " << want.size() << " points");
    for (std::size_t k = 0; k < want.size(); ++k) MON_CHECK(same(val(v[k]), want[k]), what, c.tag << " point " << k << " of " << want.size() << ": " << show(val(v[k])) << " expected " << show(want[k]));
  });
}
template <class A, class B, class F>
auto pointwise(const A& a, const B& b, F f) {
  return [&a, &b, f](const Entity& e, const MatrixXd& x) {
    const auto u = a(e, x);
    const auto v = b(e, x);
    std::vector<Val> r;
    for (std::size_t k = 0; k < u.size(); ++k) r.push_back(f(u[k], v[k]));
    return r;
  };
}
template <class A, class F>
auto pointwise1(const A& a, F f) {
  return [&a, f](const Entity& e, const MatrixXd& x) {
    const auto u = a(e, x);
    std::vector<Val> r;
    for (std::size_t k = 0; k < u.size(); ++k) r.push_back(f(u[k]));
    return r;
  };
}
template <class A, class B>
void plusminus(Ctx& c, const A& a, const B& b, const char* nm) {
  using namespace lf::mesh::utils;
  c.tag = nm;
  agree(c, "sum", a + b, pointwise(a, b, [](auto& u, auto& v) { return zip(val(u), val(v), 1); }));
  agree(c, "difference", a - b, pointwise(a, b, [](auto& u, auto& v) { return zip(val(u), val(v), -1); }));
}
template <class A, class B>
void product(Ctx& c, const A& a, const B& b, const char* nm) {
  using namespace lf::mesh::utils;
  c.tag = nm;
  agree(c, "product", a * b, pointwise(a, b, [](auto& u, auto& v) { return times(u, v); }));
}
template <class A>
void negate(Ctx& c, const A& a, const char* nm) {
  using namespace lf::mesh::utils;
  c.tag = nm;
  agree(c, "minus", -a, pointwise1(a, [](auto& u) { return scale(-1, val(u)); }));
}
template <class A>
void norm2(Ctx& c, const A& a, const char* nm) {
  using namespace lf::mesh::utils;
  c.tag = nm;
  agree(c, "squaredNorm", squaredNorm(a), pointwise1(a, [](auto& u) {
          double s = 0;
          for (auto& z : val(u).v) s += z.real() * z.real() + z.imag() * z.imag();
          return val(s);
        }));
}
inline Val flip(const Val& a, bool cj) {
  Val r{a.c, a.r, std::vector<cplx>(a.v.size())};
  for (int i = 0; i < a.r; ++i)
    for (int j = 0; j < a.c; ++j) r.v[j * a.r + i] = cj ? std::conj(a.v[i * a.c + j]) : a.v[i * a.c + j];
  return r;
}
template <class A>
void transposes(Ctx& c, const A& a, const char* nm) {
  using namespace lf::mesh::utils;
  c.tag = nm;
  agree(c, "transpose", transpose(a), pointwise1(a, [](auto& u) { return flip(val(u), false); }));
}
template <class A>
void adjoints(Ctx& c, const A& a, const char* nm) {
  using namespace lf::mesh::utils;
  c.tag = nm;
  agree(c, "adjoint", adjoint(a), pointwise1(a, [](auto& u) { return flip(val(u), true); }));
}
template <class A>
void conjugates(Ctx& c, const A& a, const char* nm) {
  using namespace lf::mesh::utils;
  c.tag = nm;
  agree(c, "conjugate", conjugate(a), pointwise1(a, [](auto& u) {
          Val r = val(u);
          for (auto& z : r.v) z = std::conj(z);
          return r;
        }));
}
Ctx context(Rng& rng) {
  Opts o;
  o.max_cells = 8;
  const Desc d = random_desc(rng, o);
  sig(d.hash());
  return {rng, build(d), describe(d)};
}

template <class S, int R, int C>
using RM = Eigen::Matrix<S, R, C, Eigen::RowMajor>;
using M23 = Eigen::Matrix<double, 2, 3>;
using M23c = Eigen::Matrix<cplx, 2, 3>;
using M32 = Eigen::Matrix<double, 3, 2>;
using M2X = Eigen::Matrix<double, 2, Eigen::Dynamic>;
using A22 = Eigen::Array<double, 2, 2>;
using A22c = Eigen::Array<cplx, 2, 2>;
using AXX = Eigen::ArrayXXd;
using RA22 = Eigen::Array<double, 2, 2, Eigen::RowMajor>;

#define L(T) leaf<T>(*c.m, rng)
#define LN(T, r, k) leaf<T>(*c.m, rng, r, k)

void sums(Rng& rng, u64) {
  Ctx c = context(rng);
  plusminus(c, L(double), L(double), "double, double");
  plusminus(c, L(double), L(cplx), "double, complex");
  plusminus(c, L(cplx), L(double), "complex, double");
  plusminus(c, L(cplx), L(cplx), "complex, complex");
  plusminus(c, L(int), L(int), "int, int");
  plusminus(c, L(X), L(X), "other, other");
  plusminus(c, L(Eigen::Vector2d), L(Eigen::Vector2d), "vector2, vector2");
  plusminus(c, L(Eigen::Vector3d), L(Eigen::Vector3cd), "vector3, complex vector3");
  plusminus(c, L(Eigen::RowVector3d), L(Eigen::RowVector3d), "row vectors");
  plusminus(c, L(M23), L(M23), "2x3, 2x3");
  plusminus(c, L(M23c), L(M23), "complex 2x3, 2x3");
  const int n = rng.uni(1, 4), k = rng.uni(1, 4);
  plusminus(c, LN(VectorXd, n, 1), LN(VectorXd, n, 1), "dynamic vectors");
  plusminus(c, LN(MatrixXd, n, k), LN(MatrixXd, n, k), "dynamic matrices");
  plusminus(c, LN(MatrixXd, n, k), LN(Eigen::MatrixXcd, n, k), "dynamic, complex dynamic");
  plusminus(c, LN(MatrixXd, 2, 3), L(M23), "dynamic, 2x3");
  plusminus(c, L(M23c), LN(MatrixXd, 2, 3), "complex 2x3, dynamic");
  plusminus(c, LN(M2X, 2, 3), L(M23), "2xN, 2x3");
  plusminus(c, L(A22), L(A22), "arrays");
  plusminus(c, L(A22), LN(AXX, 2, 2), "array, dynamic array");
  plusminus(c, LN(AXX, n, k), LN(AXX, n, k), "dynamic arrays");
}
void layouts(Rng& rng, u64) {
  Ctx c = context(rng);
  using R23 = RM<double, 2, 3>;
  plusminus(c, L(R23), L(R23), "row major 2x3");
  plusminus(c, L(R23), L(M23), "row major, column major");
  plusminus(c, L(M23c), L(R23), "complex column major, row major");
  plusminus(c, L(RA22), L(A22), "row major array, array");
  product(c, L(double), L(R23), "double, row major");
  product(c, L(R23), L(cplx), "row major, complex");
  product(c, L(R23), L(M32), "row major times matrix");
  product(c, L(RA22), L(RA22), "row major arrays");
  product(c, L(double), L(RA22), "double, row major array");
  negate(c, L(R23), "row major");
  transposes(c, L(R23), "row major");
  norm2(c, L(R23), "row major");
  conjugates(c, L(R23), "row major");
}
void products(Rng& rng, u64) {
  Ctx c = context(rng);
  product(c, L(double), L(double), "double, double");
  product(c, L(double), L(cplx), "double, complex");
  product(c, L(cplx), L(double), "complex, double");
  product(c, L(int), L(int), "int, int");
  product(c, L(X), L(X), "other, other");
  product(c, L(double), L(Eigen::Vector2d), "double, vector2");
  product(c, L(Eigen::Vector2d), L(double), "vector2, double");
  product(c, L(cplx), L(Eigen::Vector3d), "complex, vector3");
  product(c, L(double), L(M23), "double, 2x3");
  product(c, L(M23c), L(double), "complex 2x3, double");
  product(c, L(M23), L(M32), "2x3, 3x2");
  product(c, L(M23), L(Eigen::Vector3d), "2x3, vector3");
  product(c, L(M23c), L(Eigen::Vector3d), "complex 2x3, vector3");
  product(c, L(Eigen::RowVector2d), L(Eigen::Vector2d), "row, column");
  product(c, L(Eigen::Vector2d), L(Eigen::RowVector2d), "column, row");
  const int n = rng.uni(1, 4), k = rng.uni(1, 4), l = rng.uni(1, 4);
  product(c, LN(MatrixXd, n, k), LN(MatrixXd, k, l), "dynamic");
  product(c, LN(Eigen::MatrixXcd, n, k), LN(VectorXd, k, 1), "complex dynamic, vector");
  product(c, L(M23), LN(MatrixXd, 3, l), "2x3, dynamic");
  product(c, LN(MatrixXd, n, 2), L(M23), "dynamic, 2x3");
  product(c, L(double), LN(MatrixXd, n, k), "double, dynamic");
  product(c, LN(MatrixXd, n, k), L(cplx), "dynamic, complex");
}
void arrays(Rng& rng, u64) {
  Ctx c = context(rng);
  const int n = rng.uni(1, 4), k = rng.uni(1, 4);
  product(c, L(A22), L(A22), "arrays");
  product(c, L(A22c), L(A22), "complex array, array");
  product(c, L(A22), LN(AXX, 2, 2), "array, dynamic array");
  product(c, LN(AXX, n, k), LN(AXX, n, k), "dynamic arrays");
  product(c, L(double), L(A22), "double, array");
  product(c, L(A22), L(cplx), "array, complex");
  product(c, L(double), LN(AXX, n, k), "double, dynamic array");
  plusminus(c, L(A22c), L(A22), "complex array, array");
}
void unary(Rng& rng, u64) {
  Ctx c = context(rng);
  const int n = rng.uni(1, 4), k = rng.uni(1, 4);
  negate(c, L(double), "double");
  negate(c, L(cplx), "complex");
  negate(c, L(int), "int");
  negate(c, L(X), "other");
  negate(c, L(Eigen::Vector2d), "vector2");
  negate(c, L(M23c), "complex 2x3");
  negate(c, LN(MatrixXd, n, k), "dynamic");
  negate(c, L(A22), "array");
  negate(c, LN(AXX, n, k), "dynamic array");
  norm2(c, L(double), "double");
  norm2(c, L(cplx), "complex");
  norm2(c, L(Eigen::Vector2d), "vector2");
  norm2(c, L(Eigen::Vector3d), "vector3");
  norm2(c, L(Eigen::RowVector3d), "row vector3");
  norm2(c, L(Eigen::Vector2cd), "complex vector2");
  norm2(c, LN(VectorXd, n, 1), "dynamic vector");
  norm2(c, LN(Eigen::VectorXcd, n, 1), "complex dynamic vector");
  norm2(c, L(M23), "2x3");
  transposes(c, L(M23), "2x3");
  transposes(c, L(Eigen::Vector3cd), "complex vector3");
  transposes(c, LN(MatrixXd, n, k), "dynamic");
  transposes(c, L(A22), "array");
  adjoints(c, L(M23c), "complex 2x3");
  adjoints(c, L(M23), "2x3");
  adjoints(c, LN(Eigen::MatrixXcd, n, k), "complex dynamic");
  conjugates(c, L(double), "double");
  conjugates(c, L(cplx), "complex");
  conjugates(c, L(M23c), "complex 2x3");
  conjugates(c, LN(Eigen::MatrixXcd, n, k), "complex dynamic");
  conjugates(c, L(A22c), "complex array");
}

// random expressions over constants, functions of position, finite element
// functions and entity-wise data
struct Any {
  std::shared_ptr<const std::function<std::vector<double>(const Entity&, const MatrixXd&)>> f;
  std::vector<double> operator()(const Entity& e, const MatrixXd& x) const { return (*f)(e, x); }
};
template <class F>
Any erase(F f) {
  return {std::make_shared<const std::function<std::vector<double>(const Entity&, const MatrixXd&)>>(std::move(f))};
}
void expressions(Rng& rng, u64) {
  using namespace lf::mesh::utils;
  Opts o;
  o.max_cells = 8;
  o.dw = 2;
  const Desc d = random_desc(rng, o);
  Ctx c{rng, build(d), describe(d)};
  const auto sp = random_space<double>(rng, c.m, 4);
  const VectorXd u = rand_vec<double>(rng, sp.sp->LocGlobMap().NumDofs());
  const lf::fe::MeshFunctionFE fe(sp.sp, u);
  const VectorXd kx = VectorXd::NullaryExpr(2, [&](Eigen::Index) { return rng.real(-1, 1); }) / d.diam();
  auto kp = std::make_shared<const VectorXd>(kx);
  using Fn = std::function<double(const Entity&, const VectorXd&)>;
  std::string text;
  std::function<std::pair<Any, Fn>(int)> tree = [&](int depth) -> std::pair<Any, Fn> {
    const int k = depth == 0 ? rng.uni(0, 3) : rng.uni(4, 8);
    text += char('a' + k);
    switch (k) {
      case 0: {
        const double v = rng.real(-1, 1);
        return {erase(MeshFunctionConstant<double>(v)), [v](const Entity&, const VectorXd&) { return v; }};
      }
      case 1:
        return {erase(MeshFunctionGlobal([kp](const VectorXd& x) { return std::cos(kp->dot(x)); })),
                [kp](const Entity& e, const VectorXd& x) { return std::cos(kp->dot(VectorXd(e.Geometry()->Global(MatrixXd(x)).col(0)))); }};
      case 2: return {erase(fe), [fe](const Entity& e, const VectorXd& x) { return fe(e, MatrixXd(x))[0]; }};
      case 3: {
        const auto l = leaf<double>(*c.m, rng);
        return {erase(l), [l](const Entity& e, const VectorXd& x) { return l(e, MatrixXd(x))[0]; }};
      }
      case 4: {
        auto [a, f] = tree(depth - 1);
        return {erase(-a), [f = f](const Entity& e, const VectorXd& x) { return -f(e, x); }};
      }
      case 5: {
        auto [a, f] = tree(depth - 1);
        return {erase(squaredNorm(a)), [f = f](const Entity& e, const VectorXd& x) { return f(e, x) * f(e, x); }};
      }
      default: {
        auto [a, f] = tree(depth - 1);
        auto [b, g] = tree(rng.uni(0, depth - 1));
        if (k == 6) return {erase(a + b), [f = f, g = g](const Entity& e, const VectorXd& x) { return f(e, x) + g(e, x); }};
        if (k == 7) return {erase(a - b), [f = f, g = g](const Entity& e, const VectorXd& x) { return f(e, x) - g(e, x); }};
        return {erase(a * b), [f = f, g = g](const Entity& e, const VectorXd& x) { return f(e, x) * g(e, x); }};
      }
    }
  };
  auto [any, fn] = tree(rng.uni(1, 5));
  for (unsigned cd = 0; cd < 3; ++cd)
    for (int rep = 0; rep < 2; ++rep) {
      const Entity* e = c.m->EntityByIndex(cd, rng.uni(0, (int)c.m->NumEntities(cd) - 1));
      const int n = rng.uni(1, 9);
      const MatrixXd x = cd == 2 ? MatrixXd(0, n) : ref_points(rng, e->RefEl().NumNodes(), n);
      const auto v = any(*e, x);
      MON_REQUIRE((int)v.size() == n, "expression", c.tag);
      for (int k = 0; k < n; ++k) {
        const double w = fn(*e, x.col(k));
        MON_CHECK(std::abs(v[k] - w) <= 1e-9 * (1 + std::abs(w)), "expression", c.tag << " " << text << " " << v[k] << " expected " << w);
      }
    }
  // gradients and tensors
  const lf::fe::MeshFunctionGradFE gf(sp.sp, u);
  const auto T = leaf<Eigen::Matrix2d>(*c.m, rng);
  const auto flux = -(T * gf);
  const auto q = squaredNorm(T * gf) + transpose(gf) * gf * MeshFunctionConstant<double>(0.0);
  (void)q;
  for (const Entity* e : c.m->Entities(0)) {
    const MatrixXd x = ref_points(rng, e->RefEl().NumNodes(), 3);
    const auto a = T(*e, x);
    const auto g = gf(*e, x);
    const auto v = flux(*e, x);
    for (int k = 0; k < 3; ++k) MON_CHECK((VectorXd(v[k]) + a[k] * g[k]).norm() <= 1e-12 * (1 + g[k].norm()) * 4, "flux", c.tag);
  }
  sig(hcomb(d.hash(), hash_str(text)));
  sample(c.tag + " " + text);
}
}  // namespace

void mon::register_all() {
  stream("N01", "sums", 40, 400, sums);
  stream("N01", "layouts", 30, 300, layouts);
  stream("N01", "products", 40, 400, products);
  stream("N01", "arrays", 30, 300, arrays);
  stream("N01", "unary", 40, 400, unary);
  stream("N01", "expressions", 150, 4000, expressions);
  expect("N01", {"sum", "difference", "product", "minus", "squaredNorm", "transpose", "adjoint", "conjugate", "expression", "flux"});
}
