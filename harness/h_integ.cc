// F05: integration of mesh functions.
#include "fem.h"

using namespace mon;
using namespace fem;

namespace {
template <class S>
using Mat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <class S>
using Row = Eigen::Matrix<S, 1, Eigen::Dynamic>;

Opts fem_opts(Rng& rng, int cells, bool affine = false) {
  Opts o;
  o.max_cells = cells;
  o.affine_only = affine;
  if (affine) o.curved = false;
  (void)rng;
  return o;
}
std::string tag_of(const Desc& d, const std::string& sp) { return describe(d) + " / " + sp; }

// ---- F05 ---------------------------------------------------------------------
template <class T>
double mag(const T& a) {
  if constexpr (lf::base::EigenMatrix<T>) {
    return a.size() ? double(a.cwiseAbs().maxCoeff()) : 0;
  } else {
    return std::abs(a);
  }
}
// value types as a linear image of a scalar polynomial pair
template <class T>
struct Make;
template <>
struct Make<double> {
  static double get(double a, double) { return a; }
};
template <>
struct Make<cplx> {
  static cplx get(double a, double b) { return {a, b}; }
};
template <>
struct Make<Eigen::Vector2d> {
  static Eigen::Vector2d get(double a, double b) { return {a, b}; }
};
template <>
struct Make<Eigen::Vector3d> {
  static Eigen::Vector3d get(double a, double b) { return {a, b, a - 2 * b}; }
};
template <>
struct Make<VectorXd> {
  static VectorXd get(double a, double b) { return Eigen::Vector3d(a, b, a + b); }
};
template <>
struct Make<Eigen::Vector4d> {
  static Eigen::Vector4d get(double a, double b) { return Eigen::Vector4d(a, b, a + b, b - 3 * a); }
};
template <>
struct Make<Eigen::Matrix2d> {
  static Eigen::Matrix2d get(double a, double b) {
    Eigen::Matrix2d m;
    m << a, b, a + b, 2 * a;
    return m;
  }
};
template <>
struct Make<MatrixXd> {
  static MatrixXd get(double a, double b) {
    MatrixXd m(2, 3);
    m << a, b, a + b, 2 * a, -b, 0;
    return m;
  }
};
template <>
struct Make<Eigen::Matrix<double, 2, 3>> {
  static Eigen::Matrix<double, 2, 3> get(double a, double b) { return Make<MatrixXd>::get(a, b); }
};
template <>
struct Make<Eigen::Matrix<double, 2, 3, Eigen::RowMajor>> {
  static Eigen::Matrix<double, 2, 3, Eigen::RowMajor> get(double a, double b) { return Make<MatrixXd>::get(a, b); }
};
template <>
struct Make<Eigen::Matrix<cplx, 2, 1>> {
  static Eigen::Matrix<cplx, 2, 1> get(double a, double b) { return {cplx(a, b), cplx(b, 2 * a)}; }
};

// does a zero of the type exist without knowing a size?
template <class T>
constexpr bool has_zero_impl() {
  if constexpr (lf::base::EigenMatrix<T>) {
    return T::SizeAtCompileTime != Eigen::Dynamic;
  } else {
    return true;
  }
}
template <class T>
constexpr bool has_zero = has_zero_impl<T>();

template <class T>
void integrate_as(Rng& rng, const Desc& d, const lf::mesh::Mesh& m, int codim, const char* tname) {
  const int q = rng.uni(0, 6);
  const PhysPoly f1(rng, q, d.P), f2(rng, rng.uni(0, q), d.P);
  auto fx = [&](const VectorXd& x) -> T { return Make<T>::get(f1(x), f2(x)); };
  const lf::mesh::utils::MeshFunctionGlobal mf(fx);
  const int n = m.NumEntities(codim);
  std::vector<bool> sel(n);
  const int st = rng.uni(0, 6);
  const double ps = rng.real();
  for (int i = 0; i < n; ++i) sel[i] = st == 0 ? true : st == 1 ? i != 0 : st == 2 ? i + 1 == n : st == 3 ? i == 0 : rng.coin(ps);
  auto S = [&](const Entity& e) { return bool(sel[m.Index(e)]); };
  auto notS = [&](const Entity& e) { return !sel[m.Index(e)]; };
  auto none = [](const Entity&) { return false; };
  const std::string tag = describe(d) + " codim " + std::to_string(codim) + " " + tname + " q=" + std::to_string(q);
  // integrand polynomial on the reference element: affine cells need q, others more
  bool exact = true;
  int deg = q;
  for (const Entity* e : m.Entities(codim))
    if (!affine_cell(*e)) {
      // planar: f(Phi) has degree 2q (tria) or max degree 2q (quads), det up to 3
      deg = 2 * q + 3;
      if (d.dw == 3 || codim == 1) exact = false;
    }
  const int up = rng.uni(0, 2);
  deg += up;
  // own reference values per entity (many points)
  std::vector<T> own(n, Make<T>::get(0, 0));
  double scale = 0;
  for (const Entity* e : m.Entities(codim)) {
    const int nc = e->RefEl().NumNodes();
    const Rule& r = rule(nc, exact ? deg / 2 + 2 : 14);
    const MatrixXd X = e->Geometry()->Global(r.x), J = e->Geometry()->Jacobian(r.x);
    const int dim = e->RefEl().Dimension();
    T v = Make<T>::get(0, 0);
    for (int k = 0; k < X.cols(); ++k) {
      const double w = r.w(k) * measure(J.middleCols(dim * k, dim));
      const T val = fx(X.col(k));
      v = v + w * val;
      scale += w * mag(val);
    }
    own[m.Index(*e)] = v;
  }
  scale += 1e-300;
  T ex = Make<T>::get(0, 0), exn = ex;
  int ns = 0;
  for (int i = 0; i < n; ++i) {
    if (sel[i])
      ex = ex + own[i], ++ns;
    else
      exn = exn + own[i];
  }
  const T all = lf::fe::IntegrateMeshFunction(m, mf, deg, lf::base::PredicateTrue{}, codim);
  auto sub = [](const T& a, const T& b) { return mag(T(a - b)); };
  if (exact) {
    MON_CHECK(sub(all, T(ex + exn)) <= 1e-11 * scale, "total", tag << " degree " << deg << " error " << sub(all, T(ex + exn)) / scale);
    event("exact_integrals");
  } else {
    MON_CHECK(sub(all, T(ex + exn)) <= 0.5 * scale, "total_rough", tag);
  }
  // selections
  if (ns > 0 || has_zero<T>) {
    int wrong_codim = 0;
    std::vector<int> asked(n, 0);
    auto S1 = [&](const Entity& e) {
      wrong_codim += (int)e.Codim() != codim;
      asked[m.Index(e)]++;
      return S(e);
    };
    const T a = lf::fe::IntegrateMeshFunction(m, mf, deg, S1, codim);
    if (exact) MON_CHECK(sub(a, ex) <= 1e-11 * scale, "selected", tag << " style " << st << " selected " << ns << " of " << n << " error " << sub(a, ex) / scale);
    MON_CHECK(wrong_codim == 0 && *std::min_element(asked.begin(), asked.end()) >= 1, "asked_each", tag);
    if (n - ns > 0 || has_zero<T>) {
      const T b = lf::fe::IntegrateMeshFunction(m, mf, deg, notS, codim);
      MON_CHECK(sub(all, T(a + b)) <= 1e-11 * scale, "additive", tag << " selected " << ns << " of " << n);
    }
    event(ns == 0 ? "sel_empty" : ns == n ? "sel_all" : sel[0] ? "sel_with_first" : "sel_without_first");
  }
  if constexpr (has_zero<T>) {
    const T z = lf::fe::IntegrateMeshFunction(m, mf, deg, none, codim);
    MON_CHECK(mag(z) == 0, "empty_is_zero", tag << " " << tname);
  }
  // the rule of every entity is the caller's choice; also integration over nodes
  {
    const int cd = rng.uni(0, 2);
    std::map<const Entity*, lf::quad::QuadRule> rules;
    std::map<const Entity*, int> used;
    T want = Make<T>::get(0, 0);
    double sc = 1e-300;
    for (const Entity* e : m.Entities(cd)) {
      lf::quad::QuadRule qr = rng.coin(0.2) ? (e->RefEl() == RefEl::kPoint() ? lf::quad::make_QuadRuleNodal(RefEl::kPoint()) : lf::quad::make_QuadRuleNodal(e->RefEl()))
                              : e->RefEl() == RefEl::kPoint() ? lf::quad::make_QuadRuleNodal(RefEl::kPoint())
                                                              : lf::quad::make_QuadRule(e->RefEl(), rng.uni(0, 7));
      const MatrixXd X = e->Geometry()->Global(qr.Points());
      const MatrixXd J = cd == 2 ? MatrixXd() : MatrixXd(e->Geometry()->Jacobian(qr.Points()));
      const int dim = 2 - cd;
      for (int k = 0; k < X.cols(); ++k) {
        const double w = qr.Weights()(k) * (cd == 2 ? 1.0 : measure(J.middleCols(dim * k, dim)));
        const T val = fx(X.col(k));
        want = want + w * val;
        sc += std::abs(w) * mag(val);
      }
      rules.emplace(e, qr);
    }
    const T got = lf::fe::IntegrateMeshFunction(m, mf, [&](const Entity& e) { used[&e]++; return rules.at(&e); }, lf::base::PredicateTrue{}, cd);
    MON_CHECK(sub(got, want) <= 1e-12 * sc * std::max<double>(1, m.NumEntities(cd) / 50.0), "own_rules", tag << " codim " << cd << " error " << sub(got, want) / sc);
    bool once = used.size() == m.NumEntities(cd);
    for (auto& [e, k] : used) once = once && k == 1;
    MON_CHECK(once, "own_rules_once", tag);
    event(cd == 2 ? "rules_points" : cd == 1 ? "rules_edges" : "rules_cells");
  }
  sig(hcomb(d.hash(), hcomb(hash_str(tname), codim * 64 + st)));
  event(std::string("type_") + tname);
  sample(tag);
}
void integrate(Rng& rng, u64 i) {
  const bool affine = rng.coin(0.3);
  const Desc d = random_desc(rng, fem_opts(rng, thorough() ? 40 : 14, affine));
  const auto m = build(d);
  const int cd = rng.coin(0.65) ? 0 : 1;
  switch (i % 11) {
    case 0: return integrate_as<double>(rng, d, *m, cd, "double");
    case 1: return integrate_as<cplx>(rng, d, *m, cd, "complex");
    case 2: return integrate_as<Eigen::Vector2d>(rng, d, *m, cd, "vector2");
    case 3: return integrate_as<Eigen::Vector3d>(rng, d, *m, cd, "vector3");
    case 4: return integrate_as<VectorXd>(rng, d, *m, cd, "vectorX");
    case 5: return integrate_as<Eigen::Vector4d>(rng, d, *m, cd, "vector4");
    case 6: return integrate_as<Eigen::Matrix2d>(rng, d, *m, cd, "matrix2");
    case 7: return integrate_as<MatrixXd>(rng, d, *m, cd, "matrixX");
    case 8: return integrate_as<Eigen::Matrix<double, 2, 3>>(rng, d, *m, cd, "matrix23");
    case 9: return integrate_as<Eigen::Matrix<double, 2, 3, Eigen::RowMajor>>(rng, d, *m, cd, "matrix23_rowmajor");
    default: return integrate_as<Eigen::Matrix<cplx, 2, 1>>(rng, d, *m, cd, "cvector2");
  }
}
// integrals of finite element functions: sum of the cells' own integrals
void integrate_fe(Rng& rng, u64) {
  const Desc d = random_desc(rng, fem_opts(rng, 14));
  const auto m = build(d);
  const auto s = random_space<double>(rng, m, 5);
  const std::string tag = tag_of(d, s.name);
  const VectorXd c = rand_vec<double>(rng, s.sp->LocGlobMap().NumDofs());
  const lf::fe::MeshFunctionFE u(s.sp, c);
  bool exact = true;
  int deg = s.pmax;
  for (const Entity* e : m->Entities(0))
    if (!affine_cell(*e)) {
      deg = s.pmax + 3;
      exact = exact && d.dw == 2;
    }
  double ex = 0, sc = 1e-300;
  for (const Entity* e : m->Entities(0)) {
    const Rule& r = rule(e->RefEl().NumNodes(), exact ? deg / 2 + 2 : 14);
    const MatrixXd J = e->Geometry()->Jacobian(r.x);
    const auto v = u(*e, r.x);
    for (int k = 0; k < r.w.size(); ++k) {
      const double w = r.w(k) * measure(J.middleCols(2 * k, 2));
      ex += w * v[k];
      sc += w * std::abs(v[k]);
    }
  }
  const double got = lf::fe::IntegrateMeshFunction(*m, u, deg);
  MON_CHECK(std::abs(got - ex) <= (exact ? 1e-11 : 0.5) * sc, "fe_integral", tag << " got " << got << " expected " << ex);
  sig(hcomb(d.hash(), hash_str(s.name)));
}

}  // namespace

void mon::register_all() {
  stream("F05", "integrate", 440, 8000, integrate);
  stream("F05", "integrate_fe", 100, 2000, integrate_fe);
  expect("F05", {"sel_empty", "sel_all", "sel_with_first", "sel_without_first", "exact_integrals", "rules_points", "rules_edges", "rules_cells"});
}
