// F01, F02: reference elements.
#include "fem.h"

using namespace mon;
using namespace fem;

namespace {
template <class S>
using Mat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <class S>
using Row = Eigen::Matrix<S, 1, Eigen::Dynamic>;

// independent values of the hierarchic functions on [0,1]
double int_leg(int n, double x) { return (leg01(n, x) - leg01(n - 2, x)) / (2.0 * (2 * n - 1)); }

struct ElInfo {
  std::string name;
  RefEl re = RefEl::kPoint();
  std::vector<int> edge_fn;  // interior functions per side (dim 2)
  int inner = 0;             // functions of the element's interior
  int qrep = 1;              // all polynomials of this degree are contained
  int D = 1;                 // no function exceeds this degree per coordinate direction
  int degree = 1;            // reported degree
  bool cardinal = false;
  double tol = 1e-11;
  // expected values of the functions of side i (end points first) at
  // parameters t running from the side's first to second end point
  std::function<MatrixXd(int, const VectorXd&)> side;
};

template <class S>
void check_element(Rng& rng, const ScalarReferenceFiniteElement<S>& fe, const ElInfo& el) {
  const int nc = el.re.NumNodes(), dim = el.re.Dimension();
  MON_REQUIRE(fe.RefEl() == el.re, "refel", el.name);
  MON_CHECK((int)fe.Degree() == el.degree, "degree", el.name << " reports degree " << fe.Degree());
  MON_CHECK((int)fe.Dimension() == dim, "dimension", el.name);
  int n = nc + el.inner;
  for (int k : el.edge_fn) n += k;
  MON_REQUIRE((int)fe.NumRefShapeFunctions() == n, "count", el.name << ": " << fe.NumRefShapeFunctions() << " for " << n);
  for (int i = 0; i < nc; ++i) MON_CHECK(fe.NumRefShapeFunctions(dim, i) == 1, "count_sub", el.name << " vertex " << i);
  for (int i = 0; i < (int)el.edge_fn.size(); ++i)
    MON_CHECK((int)fe.NumRefShapeFunctions(1, i) == el.edge_fn[i], "count_sub", el.name << " side " << i);
  MON_CHECK((int)fe.NumRefShapeFunctions(0, 0) == el.inner, "count_sub", el.name << " interior");
  const bool uni = std::set<int>(el.edge_fn.begin(), el.edge_fn.end()).size() <= 1;
  if (uni) {
    MON_CHECK((int)fe.NumRefShapeFunctions(0) == el.inner && fe.NumRefShapeFunctions(dim) == 1, "count_codim", el.name);
    if (dim == 2) MON_CHECK((int)fe.NumRefShapeFunctions(1) == el.edge_fn[0], "count_codim", el.name);
  }
  // evaluation at batches
  const int m = rng.uni(1, 5);
  const MatrixXd x = ref_points(rng, nc, m);
  const Mat<S> B = fe.EvalReferenceShapeFunctions(x);
  const Mat<S> G = fe.GradientsReferenceShapeFunctions(x);
  MON_REQUIRE(B.rows() == n && B.cols() == m, "eval_shape", el.name << " " << B.rows() << "x" << B.cols());
  MON_REQUIRE(G.rows() == n && G.cols() == dim * m, "grad_shape", el.name << " " << G.rows() << "x" << G.cols());
  for (int k = 0; k < m; ++k) {
    const MatrixXd xk = x.col(k);
    MON_CHECK((fe.EvalReferenceShapeFunctions(xk) - B.col(k)).cwiseAbs().maxCoeff() < 1e-13, "batch_value", el.name);
    MON_CHECK((fe.GradientsReferenceShapeFunctions(xk) - G.middleCols(dim * k, dim)).cwiseAbs().maxCoeff() <
                  1e-12 * (1 + G.cwiseAbs().maxCoeff()),
              "batch_gradient", el.name);
  }
  // constants and their gradients: vertex functions (hierarchic) or all (cardinal)
  {
    const int nn = el.cardinal ? n : nc;
    MON_CHECK((B.topRows(nn).colwise().sum() - Mat<S>::Ones(1, m)).cwiseAbs().maxCoeff() < 1e-12, "partition_of_unity",
              el.name);
    MON_CHECK(G.topRows(nn).colwise().sum().cwiseAbs().maxCoeff() < 1e-11, "partition_gradient", el.name);
  }
  // gradients are derivatives: sample along a coordinate line
  for (int d = 0; d < dim; ++d) {
    const Lobatto& lo = lobatto(el.D + 1);
    VectorXd p = ref_point(rng, nc, true);
    double len = 1;
    if (nc == 3) {
      p(1 - d) = 0.7 * rng.real();
      len = 1 - p(1 - d);
    }
    MatrixXd xs = p.replicate(1, lo.t.size());
    for (int k = 0; k < lo.t.size(); ++k) xs(d, k) = len * lo.t(k);
    const Mat<S> V = fe.EvalReferenceShapeFunctions(xs);
    const Mat<S> g = fe.GradientsReferenceShapeFunctions(xs);
    double worst = 0, scale = 1;
    int wi = 0;
    for (int i = 0; i < n; ++i) {
      Row<S> gd(xs.cols());
      for (int k = 0; k < xs.cols(); ++k) gd(k) = g(i, dim * k + d);
      const Row<S> ref = V.row(i) * lo.D.transpose() / len;
      const double e = (ref - gd).cwiseAbs().maxCoeff(), sc = ref.cwiseAbs().maxCoeff();
      scale = std::max(scale, sc);
      if (!(e <= worst)) worst = e, wi = i;
    }
    const double tg = 2e-13 * (el.D + 2) * (el.D + 2) * scale;
    note("gradient_err_over_tol", worst / tg);
    MON_CHECK(worst <= tg, "gradient_is_derivative", el.name << " function " << wi << " direction " << d << " error " << worst);
  }
  // nodal values
  const MatrixXd N = fe.EvaluationNodes();
  const int ne = fe.NumEvaluationNodes();
  MON_REQUIRE(N.rows() == dim && N.cols() == ne, "nodes_shape", el.name << " " << N.rows() << "x" << N.cols() << " for " << ne);
  for (int k = 0; k < ne; ++k) {
    const double lo = N.col(k).minCoeff(), hi = nc == 3 ? N.col(k).sum() : N.col(k).maxCoeff();
    MON_CHECK(lo >= -1e-14 && hi <= 1 + 1e-14, "nodes_inside", el.name << " node " << k << " " << mstr(N.col(k).transpose()));
  }
  const Mat<S> V = fe.EvalReferenceShapeFunctions(N);
  if (el.cardinal) {
    MON_REQUIRE(ne == n, "cardinal_nodes", el.name);
    MON_CHECK((V - Mat<S>::Identity(n, n)).cwiseAbs().maxCoeff() < 1e-13, "cardinal", el.name << " " << mstr(V.real().eval()));
  }
  {
    const Row<S> c = rand_vec<S>(rng, n).transpose();
    const Row<S> back = fe.NodalValuesToDofs(c * V);
    MON_REQUIRE(back.size() == n, "dofs_size", el.name);
    const double e = (back - c).cwiseAbs().maxCoeff();
    note("duality_err_over_tol", e / el.tol);
    int at = 0;
    (back - c).cwiseAbs().maxCoeff(&at);
    MON_CHECK(e <= el.tol, "nodal_duality", el.name << " coefficient " << at << " error " << e);
  }
  {
    const RefPoly q(rng, el.qrep, dim, nc == 4);
    Row<S> v(ne);
    for (int k = 0; k < ne; ++k) v(k) = q(N.col(k));
    const Row<S> c = fe.NodalValuesToDofs(v);
    const Row<S> val = c * B;
    double e = 0, sc = 1;
    for (int k = 0; k < m; ++k) {
      const double ex = q(x.col(k));
      sc = std::max(sc, std::abs(ex));
      e = std::max(e, std::abs(val(k) - ex));
    }
    sc = std::max(sc, v.cwiseAbs().maxCoeff());
    note("reproduction_err_over_tol", e / (el.tol * sc));
    MON_CHECK(e <= el.tol * sc, "polynomial_reproduction", el.name << " degree " << el.qrep << " error " << e);
  }
  // traces
  if (dim == 2) {
    int first = nc;
    for (int i = 0; i < nc; ++i) {
      const int kf = el.edge_fn[i];
      VectorXd t(4);
      t << 0, 1, rng.real(), rng.real();
      const Mat<S> E = fe.EvalReferenceShapeFunctions(side_points(nc, i, t));
      const MatrixXd ex = el.side(i, t);
      std::vector<int> rows{i, (i + 1) % nc};
      for (int k = 0; k < kf; ++k) rows.push_back(first + k);
      std::vector<bool> on(n, false);
      for (int k = 0; k < (int)rows.size(); ++k) {
        on[rows[k]] = true;
        MON_CHECK((E.row(rows[k]) - ex.row(k)).cwiseAbs().maxCoeff() < 1e-12, "trace",
                  el.name << " side " << i << " function " << rows[k] << ": " << mstr(E.row(rows[k]).real().eval())
                          << " expected " << mstr(ex.row(k)));
      }
      for (int k = 0; k < n; ++k)
        if (!on[k])
          MON_CHECK(E.row(k).cwiseAbs().maxCoeff() < 1e-12, "trace_zero",
                    el.name << " function " << k << " does not vanish on side " << i);
      first += kf;
    }
  } else if (dim == 1) {
    MatrixXd e01(1, 2);
    e01 << 0, 1;
    const Mat<S> E = fe.EvalReferenceShapeFunctions(e01);
    for (int k = 0; k < n; ++k)
      MON_CHECK(std::abs(E(k, 0) - (k == 0 ? 1.0 : 0.0)) < 1e-13 && std::abs(E(k, 1) - (k == 1 ? 1.0 : 0.0)) < 1e-13,
                "trace_point", el.name << " function " << k);
  }
  std::ostringstream o;
  o << fe;
  MON_CHECK(!o.str().empty(), "print", el.name);
  sig(el.name);
}

// ---- F01 ---------------------------------------------------------------------
template <class S>
std::unique_ptr<ScalarReferenceFiniteElement<S>> lagrange(RefEl re, int p) {
  using namespace lf::uscalfe;
  if (re == RefEl::kSegment()) {
    if (p == 1) return std::make_unique<FeLagrangeO1Segment<S>>();
    if (p == 2) return std::make_unique<FeLagrangeO2Segment<S>>();
    return std::make_unique<FeLagrangeO3Segment<S>>();
  }
  if (re == RefEl::kTria()) {
    if (p == 1) return std::make_unique<FeLagrangeO1Tria<S>>();
    if (p == 2) return std::make_unique<FeLagrangeO2Tria<S>>();
    return std::make_unique<FeLagrangeO3Tria<S>>();
  }
  if (p == 1) return std::make_unique<FeLagrangeO1Quad<S>>();
  if (p == 2) return std::make_unique<FeLagrangeO2Quad<S>>();
  return std::make_unique<FeLagrangeO3Quad<S>>();
}
ElInfo lagrange_info(RefEl re, int p) {
  ElInfo el;
  el.name = "lagrange" + std::to_string(p) + re.ToString();
  el.re = re;
  el.cardinal = true;
  el.qrep = p;
  el.degree = p;
  el.D = p;
  el.tol = 1e-12;
  if (re == RefEl::kSegment()) {
    el.inner = p - 1;
  } else {
    el.edge_fn.assign(re.NumNodes(), p - 1);
    el.inner = re == RefEl::kTria() ? (p - 1) * (p - 2) / 2 : (p - 1) * (p - 1);
  }
  // equidistant cardinal functions on a side
  el.side = [p](int, const VectorXd& t) {
    std::vector<double> nd{0, 1};
    for (int k = 1; k < p; ++k) nd.push_back(double(k) / p);
    MatrixXd r(p + 1, t.size());
    for (int i = 0; i <= p; ++i)
      for (int k = 0; k < t.size(); ++k) {
        double v = 1;
        for (int j = 0; j <= p; ++j)
          if (j != i) v *= (t(k) - nd[j]) / (nd[i] - nd[j]);
        r(i, k) = v;
      }
    return r;
  };
  return el;
}
template <class S>
void lagrange_element(Rng& rng, u64 i) {
  const RefEl re = i % 3 == 0 ? RefEl::kSegment() : i % 3 == 1 ? RefEl::kTria() : RefEl::kQuad();
  const int p = 1 + (i / 3) % 3;
  const auto fe = lagrange<S>(re, p);
  const ElInfo el = lagrange_info(re, p);
  check_element<S>(rng, *fe, el);
  // the trace is what the segment element says
  if (re.Dimension() == 2) {
    const auto seg = lagrange<S>(RefEl::kSegment(), p);
    VectorXd t(3);
    t << rng.real(), rng.real(), rng.real();
    const int s = rng.uni(0, re.NumNodes() - 1);
    const Mat<S> a = seg->EvalReferenceShapeFunctions(t.transpose());
    const Mat<S> b = fe->EvalReferenceShapeFunctions(side_points(re.NumNodes(), s, t));
    for (int k = 0; k <= p; ++k) {
      const int row = k == 0 ? s : k == 1 ? (s + 1) % re.NumNodes() : int(re.NumNodes()) + s * (p - 1) + k - 2;
      MON_CHECK((a.row(k) - b.row(row)).cwiseAbs().maxCoeff() < 1e-12, "segment_trace", el.name << " side " << s << " function " << k);
    }
    // the evaluation nodes of a side are those of the segment
    const MatrixXd ns = seg->EvaluationNodes(), nf = fe->EvaluationNodes();
    for (int k = 2; k <= p; ++k) {
      VectorXd tt(1);
      tt << ns(0, k);
      MON_CHECK((side_points(re.NumNodes(), s, tt).col(0) - nf.col(re.NumNodes() + s * (p - 1) + k - 2)).norm() < 1e-14,
                "segment_nodes", el.name << " side " << s);
    }
  }
  // precomputed variant
  const unsigned qd = rng.uni(0, 8);
  const auto qr = lf::quad::make_QuadRule(re, qd);
  const lf::uscalfe::PrecomputedScalarReferenceFiniteElement<S> pre(fe.get(), qr);
  MON_REQUIRE(pre.isInitialized(), "precomp_init", el.name);
  check_element<S>(rng, pre, el);
  MON_CHECK(pre.Qr().Points() == qr.Points() && pre.Qr().Weights() == qr.Weights() && pre.Qr().RefEl() == re, "precomp_rule", el.name);
  MON_CHECK(near_m(pre.PrecompReferenceShapeFunctions(), fe->EvalReferenceShapeFunctions(qr.Points()), 1e-14), "precomp_values", el.name);
  MON_CHECK(near_m(pre.PrecompGradientsReferenceShapeFunctions(), fe->GradientsReferenceShapeFunctions(qr.Points()), 1e-14), "precomp_grads", el.name);
  const lf::uscalfe::PrecomputedScalarReferenceFiniteElement<S> none;
  MON_CHECK(!none.isInitialized(), "precomp_init", "default constructed");
  must_fail("precomp_uninit", "evaluation of an uninitialised object", [&] { (void)none.NumRefShapeFunctions(); });
  // moved object keeps its values
  lf::uscalfe::PrecomputedScalarReferenceFiniteElement<S> a(fe.get(), qr), b;
  b = std::move(a);
  MON_CHECK(b.isInitialized() && near_m(b.PrecompReferenceShapeFunctions(), pre.PrecompReferenceShapeFunctions(), 1e-15), "precomp_move", el.name);
  event(re == RefEl::kQuad() ? "lagrange_quad" : re == RefEl::kTria() ? "lagrange_tria" : "lagrange_segment");
}
void point_element(Rng& rng, u64) {
  const int p = rng.uni(1, 9), k = rng.uni(1, 4);
  const lf::fe::FePoint<double> fe(p);
  MON_CHECK(fe.RefEl() == RefEl::kPoint() && (int)fe.Degree() == p && static_cast<const ScalarReferenceFiniteElement<double>&>(fe).NumRefShapeFunctions() == 1 && fe.NumRefShapeFunctions(0, 0) == 1, "point_fe", p);
  MON_CHECK(fe.EvalReferenceShapeFunctions(MatrixXd(0, k)) == MatrixXd::Ones(1, k), "point_fe_eval", k);
  MON_CHECK(fe.NumEvaluationNodes() == 1 && fe.EvaluationNodes().rows() == 0 && fe.EvaluationNodes().cols() == 1, "point_fe_nodes", "");
  const Row<double> v = Row<double>::Constant(1, rng.real());
  MON_CHECK(fe.NodalValuesToDofs(v) == v, "point_fe_dofs", "");
}

// ---- F02 ---------------------------------------------------------------------
template <class S>
void hierarchic_element(Rng& rng, u64 i) {
  using lf::mesh::Orientation;
  static const lf::quad::QuadRuleCache cache;
  const int cap = thorough() ? 20 : 12;
  const int style = rng.uni(0, 5);
  auto deg = [&] { return style == 0 ? rng.uni(1, cap) : style <= 3 ? rng.uni(1, 5) : rng.uni(1, 8); };
  ElInfo el;
  el.cardinal = false;
  auto dual_tol = [&](int p) { return 1e-12 * std::pow(p + 1.0, 3); };
  if (i % 3 == 0) {
    const int p = style == 0 ? rng.uni(1, 30) : deg();
    const lf::fe::FeHierarchicSegment<S> fe(p, cache);
    el.name = "hseg" + std::to_string(p);
    el.re = RefEl::kSegment();
    el.inner = p - 1;
    el.qrep = el.degree = el.D = p;
    el.tol = dual_tol(p);
    check_element<S>(rng, fe, el);
    // values
    VectorXd t(3);
    t << rng.real(), rng.real(), rng.real();
    const Mat<S> B = fe.EvalReferenceShapeFunctions(t.transpose());
    for (int k = 2; k <= p; ++k)
      for (int j = 0; j < 3; ++j)
        MON_CHECK(std::abs(B(k, j) - int_leg(k, t(j))) < 1e-13, "segment_function", el.name << " function " << k);
    event("h_segment");
    return;
  }
  const int nc = i % 3 == 1 ? 3 : 4;
  std::vector<int> ed(nc);
  const int common = deg();
  const bool uniform = rng.coin(0.3);
  for (int& d : ed) d = uniform ? common : deg();
  const int in = uniform && rng.coin(0.7) ? common : deg();
  std::vector<Orientation> ori(nc);
  std::string os;
  for (auto& o : ori) {
    o = rng.coin() ? Orientation::positive : Orientation::negative;
    os += o == Orientation::positive ? '+' : '-';
  }
  el.name = (nc == 3 ? "htria" : "hquad") + std::to_string(in) + "e";
  for (int d : ed) el.name += std::to_string(d) + ",";
  el.name += os;
  el.re = ref_of(nc);
  int mx = in, mn = in;
  for (int d : ed) {
    el.edge_fn.push_back(d - 1);
    mx = std::max(mx, d);
    mn = std::min(mn, d);
  }
  el.inner = nc == 3 ? (in <= 2 ? 0 : (in - 1) * (in - 2) / 2) : (in - 1) * (in - 1);
  el.qrep = mn;
  el.degree = el.D = mx;
  el.tol = dual_tol(mx) * (nc == 3 ? 10 : 10);
  el.side = [ed, ori](int s, const VectorXd& t) {
    const int p = ed[s];
    MatrixXd r(p + 1, t.size());
    for (int k = 0; k < t.size(); ++k) {
      r(0, k) = 1 - t(k);
      r(1, k) = t(k);
      for (int j = 0; j < p - 1; ++j) {
        const bool pos = ori[s] == Orientation::positive;
        // a side that runs against the cell lists its functions in reverse
        r(2 + (pos ? j : p - 2 - j), k) = int_leg(j + 2, pos ? t(k) : 1 - t(k));
      }
    }
    return r;
  };
  if (nc == 3) {
    const lf::fe::FeHierarchicTria<S> fe(in, {(unsigned)ed[0], (unsigned)ed[1], (unsigned)ed[2]}, cache, ori);
    check_element<S>(rng, fe, el);
    event("h_tria");
  } else {
    const lf::fe::FeHierarchicQuad<S> fe(in, {(unsigned)ed[0], (unsigned)ed[1], (unsigned)ed[2], (unsigned)ed[3]}, cache, ori);
    check_element<S>(rng, fe, el);
    event("h_quad");
  }
  if (mn != mx) event("h_mixed_degree");
}
void legendre_functions(Rng& rng, u64) {
  using namespace lf::fe;
  const int n = rng.uni(0, thorough() ? 30 : 16);
  const double t = rng.coin(0.4) ? 1.0 : rng.real(0.05, 1.0), x = t * rng.real();
  // scaled Legendre: t^n P_n((2x-t)/t)
  auto ref = [&](int k, double xx, double tt) {
    long double a = 1, b = 2.0L * xx - tt;
    if (k == 0) return 1.0;
    for (int j = 2; j <= k; ++j) {
      const long double c = ((2.0L * j - 1) * (2.0L * xx - tt) * b - (j - 1.0L) * tt * tt * a) / j;
      a = b;
      b = c;
    }
    return static_cast<double>(b);
  };
  MON_CHECK(near(Legendre(n, x, t), ref(n, x, t), 1e-12), "legendre", n << " " << x << " " << t);
  if (n >= 1) {
    const double il = n == 1 ? x : (ref(n, x, t) - t * t * ref(n - 2, x, t)) / (2.0 * (2 * n - 1));
    MON_CHECK(near(ILegendre(n, x, t), il, 1e-12), "ilegendre", n << " " << x << " " << t);
    if (n >= 2) {
      // integral of P_{n-1} from 0, for t=1, vanishing at both ends
      MON_CHECK(std::abs(ILegendre(n, 0.0, t)) < 1e-14 && std::abs(ILegendre(n, t, t)) < 1e-13, "ilegendre_ends", n << " " << t);
      auto [g, w] = gauss(n + 1);
      double s = 0;
      for (int k = 0; k <= n; ++k) s += x * w(k) * ref(n - 1, x * g(k), t);
      MON_CHECK(near(ILegendre(n, x, t), s, 1e-12), "ilegendre_integral", n << " " << x << " " << t);
    }
  }
  // derivatives by sampling
  double dscale = 0;  // largest derivative in the sampled interval [0, len]
  auto deriv = [&](auto&& f, double at, int degree, double len = 1.0) {
    const Lobatto& lo = lobatto(degree + 1);
    VectorXd v(lo.t.size());
    for (int k = 0; k < v.size(); ++k) v(k) = f(len * lo.t(k));
    // interpolate the derivative's nodal values at the point (barycentric)
    const VectorXd d = lo.D * v / len;
    dscale = 1 + d.cwiseAbs().maxCoeff();
    double num = 0, den = 0;
    for (int k = 0; k < v.size(); ++k) {
      if (at == len * lo.t(k)) return d(k);
      const double w = (k % 2 ? -1.0 : 1.0) * (k == 0 || k + 1 == v.size() ? 0.5 : 1.0) / (at - len * lo.t(k));
      num += w * d(k);
      den += w;
    }
    return num / den;
  };
  auto check_d = [&](double got, double ex, const char* key) {
    note("derivative_err", std::abs(got - ex) / dscale);
    MON_CHECK(std::abs(got - ex) <= 1e-10 * dscale, key, n << " " << x << " " << t << ": " << got << " expected " << ex);
  };
  if (n >= 1) {
    double e = deriv([&](double y) { return ref(n, y, t); }, x, n, t);
    check_d(LegendreDx(n, x, t), e, "legendre_dx");
    e = deriv([&](double y) { return ILegendre(n, y, t); }, x, n, t);
    check_d(ILegendreDx(n, x, t), e, "ilegendre_dx");
    e = deriv([&](double y) { return ILegendre(n, x, y); }, t, n);
    check_d(ILegendreDt(n, x, t), e, "ilegendre_dt");
  } else {
    MON_CHECK(LegendreDx(0, x, t) == 0, "legendre_dx", "0");
  }
  // Jacobi on [0,1]: explicit sum
  const double al = rng.coin(0.7) ? double(rng.uni(0, 30)) : rng.real(0.1, 6), be = rng.coin() ? 0.0 : rng.coin() ? 1.0 : rng.real(0.1, 3);
  auto jac = [](int k, double a, double b, double y) {
    long double s = 0;
    for (int q = 0; q <= k; ++q) {
      const long double c = std::exp(std::lgamma((long double)(k + a + 1)) - std::lgamma((long double)(k - q + 1)) - std::lgamma((long double)(a + q + 1)) +
                                     std::lgamma((long double)(k + b + 1)) - std::lgamma((long double)(q + 1)) - std::lgamma((long double)(k + b - q + 1)));
      s += c * std::pow((long double)(y - 1), q) * std::pow((long double)y, k - q);
    }
    return static_cast<double>(s);
  };
  const int m = std::min(n, 12);
  const double big = 1 + std::abs(jac(m, al, be, 1.0)) + std::abs(jac(m, al, be, 0.0));
  MON_CHECK(std::abs(Jacobi(m, al, be, x) - jac(m, al, be, x)) < 1e-11 * big, "jacobi", m << " " << al << " " << be << " " << x);
  MON_CHECK(std::abs(Jacobi(m, al, x) - jac(m, al, 0, x)) < 1e-11 * big, "jacobi_beta0", m << " " << al << " " << x);
  if (m >= 1) {
    const double b2 = 1 + std::abs(jac(m, al, 0, 1.0)) + std::abs(jac(m, al, 0, 0.0));
    MON_CHECK(std::abs(IJacobiDx(m, al, x) - jac(m - 1, al, 0, x)) < 1e-11 * b2, "ijacobi_dx", m << " " << al << " " << x);
    const double jd = deriv([&](double y) { return jac(m, al, 0, y); }, x, m);
    MON_CHECK(std::abs(JacobiDx(m, al, x) - jd) < 1e-10 * (b2 + dscale), "jacobi_dx", m << " " << al << " " << x);
    auto [g, w] = gauss(m + 1);
    double s = 0;
    for (int k = 0; k <= m; ++k) s += x * w(k) * jac(m - 1, al, 0, x * g(k));
    MON_CHECK(std::abs(IJacobi(m, al, x) - s) < 1e-11 * b2, "ijacobi", m << " " << al << " " << x << ": " << IJacobi(m, al, x) << " integral " << s);
  }
  sig(hcomb(n, static_cast<u64>(al * 16) * 64 + static_cast<u64>(be * 16)));
}

}  // namespace

void mon::register_all() {
  stream("F01", "lagrange", 270, 4000, lagrange_element<double>);
  stream("F01", "lagrange_complex", 90, 1500, lagrange_element<cplx>);
  stream("F01", "point", 30, 200, point_element);
  expect("F01", {"lagrange_segment", "lagrange_tria", "lagrange_quad", "precomp_values", "cardinal"});
  stream("F02", "hierarchic", 450, 9000, hierarchic_element<double>);
  stream("F02", "hierarchic_complex", 90, 1500, hierarchic_element<cplx>);
  stream("F02", "legendre", 600, 10000, legendre_functions);
  expect("F02", {"h_segment", "h_tria", "h_quad", "h_mixed_degree", "ijacobi"});
}
