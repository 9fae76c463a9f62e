// U03: boundary value problems whose solution is representable.
#include <Eigen/SparseLU>

#include "ell.h"

using namespace mon;
using namespace ell;

namespace {
// mesh function on boundary edges depending on the outer normal
template <class S>
struct EdgeFn {
  struct Side {
    const Entity* cell = nullptr;
    int k = 0;
    bool pos = true;
  };
  std::shared_ptr<const lf::mesh::Mesh> m;
  std::shared_ptr<const std::vector<Side>> side;
  std::shared_ptr<const std::function<S(const VectorXd&, const VectorXd&)>> f;
  std::vector<S> operator()(const Entity& e, const MatrixXd& local) const {
    const Side& s = (*side)[m->Index(e)];
    const int nc = s.cell->RefEl().NumNodes();
    VectorXd t = local.row(0).transpose();
    if (!s.pos) t = (1 - t.array()).matrix();
    const MatrixXd x = side_points(nc, s.k, t);
    const MatrixXd X = s.cell->Geometry()->Global(x), J = s.cell->Geometry()->Jacobian(x);
    const VectorXd dir = side_points(nc, s.k, VectorXd::Ones(1)) - side_points(nc, s.k, VectorXd::Zero(1));
    const Eigen::Vector2d nref(dir(1), -dir(0));  // reference cells are oriented counterclockwise
    std::vector<S> v;
    for (int q = 0; q < t.size(); ++q) {
      const VectorXd n = J.middleCols(2 * q, 2).transpose().fullPivLu().solve(VectorXd(nref)).normalized();
      v.push_back((*f)(X.col(q), n));
    }
    return v;
  }
};

template <class S>
S mk(double a, double b) {
  if constexpr (std::is_same_v<S, double>) {
    (void)b;
    return a;
  } else {
    return S(a, b);
  }
}
template <class S, bool Uniform>
void patch(Rng& rng, u64 i) {
  Opts o;
  o.max_cells = thorough() ? 40 : 16;
  o.dw = 2;
  o.affine_only = rng.coin(0.5);
  const Desc d = random_desc(rng, o);
  const auto m = build(d);
  bool affine = true;
  for (const Entity* c : m->Entities(0)) affine = affine && affine_cell(*c);
  std::shared_ptr<const lf::uscalfe::UniformScalarFESpace<S>> usp;
  Space<S> sp;
  if constexpr (Uniform) {
    const int pl = 1 + i % 3;
    usp = lagrange_space<S>(m, pl);
    sp.sp = usp;
    sp.pmin = sp.pmax = pl;
    sp.lagrange = true;
    sp.name = "lagrange" + std::to_string(pl);
  } else {
    sp = random_space<S>(rng, m, thorough() ? 8 : 5);
  }
  const int p = sp.pmin, md = d.curved() ? 2 : 1;
  const int q = rng.uni(std::max(0, p / md - 2), p / md);
  // exact solution u = (c1 + i c2) polynomial
  const PhysPoly u1(rng, q, d.P);
  const S c = mk<S>(1, rng.real(-1, 1));
  // diffusion alpha(x) * A
  MatrixXd A(2, 2);
  {
    const double r = rng.real(0, 6.28), l1 = std::exp(rng.real(-1, 1)), l2 = std::exp(rng.real(-1, 1)), sk = rng.coin(0.3) ? rng.real(-1, 1) : 0.0;
    Eigen::Matrix2d Q;
    Q << std::cos(r), -std::sin(r), std::sin(r), std::cos(r);
    A = Q * Eigen::Vector2d(l1, l2).asDiagonal() * Q.transpose();
    A(0, 1) += sk, A(1, 0) -= sk;
  }
  const int ka = affine ? std::min(rng.uni(0, 2), p + 2 - q) : 0;
  // positive polynomials 1 + small * poly
  auto positive = [&](int k) {
    auto P = std::make_shared<PhysPoly>(rng, k, d.P);
    double mx = 1e-300;
    for (const Entity* e : m->Entities(0)) {
      MatrixXd X = e->Geometry()->Global(rule(e->RefEl().NumNodes(), 5).x);
      for (int j = 0; j < X.cols(); ++j) mx = std::max(mx, std::abs((*P)(X.col(j))));
      X = lf::geometry::Corners(*e->Geometry());
      for (int j = 0; j < X.cols(); ++j) mx = std::max(mx, std::abs((*P)(X.col(j))));
    }
    const double s = rng.real(0, 0.4) / mx;
    return std::pair<std::shared_ptr<PhysPoly>, double>{P, s};
  };
  auto [ap, as] = positive(ka);
  const double diam = d.diam();
  const int detdeg = affine ? 0 : md == 2 ? 3 : 1;
  const int kg_max = affine ? p - q : (q * md + p + detdeg <= 2 * p ? 0 : -1);
  const bool reaction = kg_max >= 0 && rng.coin(0.6);
  auto [gp, gs] = positive(reaction ? rng.uni(0, kg_max) : 0);
  const S g0 = reaction ? mk<S>(rng.real(0.1, 3), rng.real(-1, 1)) / (diam * diam) : S(0);
  auto [ep, es] = positive(rng.uni(0, affine ? p - q : 0));
  const S e0 = mk<S>(rng.real(0.1, 3), rng.real(-1, 1)) / diam;
  auto alpha = [A, P = ap, s = as](const VectorXd& x) { return Eigen::Matrix2d(A * (1 + s * (*P)(x))); };
  auto gamma = [g0, P = gp, s = gs](const VectorXd& x) { return S(g0 * (1 + s * (*P)(x))); };
  auto eta = [e0, P = ep, s = es](const VectorXd& x) { return S(e0 * (1 + s * (*P)(x))); };
  auto u1p = std::make_shared<const PhysPoly>(u1);
  auto u = [u1p, c](const VectorXd& x) { return S(c * (*u1p)(x)); };
  auto src = [=, P = ap, s = as](const VectorXd& x) {
    const double dv = (1 + s * (*P)(x)) * u1p->div_grad(A, x) + (s * P->grad(x)).dot(A * u1p->grad(x));
    return S(-c * dv + gamma(x) * u(x));
  };

  // boundary partition
  auto sides = std::make_shared<std::vector<typename EdgeFn<S>::Side>>(m->NumEntities(1));
  std::vector<int> cnt(m->NumEntities(1), 0);
  for (const Entity* k : m->Entities(0)) {
    const auto su = k->SubEntities(1);
    const auto ro = k->RelativeOrientations();
    for (int j = 0; j < (int)su.size(); ++j) {
      (*sides)[m->Index(*su[j])] = {k, j, ro[j] == lf::mesh::Orientation::positive};
      ++cnt[m->Index(*su[j])];
    }
  }
  std::vector<char> type(cnt.size(), '-');
  const int mode = rng.uni(0, 5);
  int nd = 0, nr = 0, nn = 0;
  for (const Entity* e : m->Entities(1)) {
    const unsigned k = m->Index(*e);
    if (cnt[k] != 1) {
      if (mode == 5 && rng.coin(0.1)) type[k] = 'D';
      continue;
    }
    const MatrixXd cc = lf::geometry::Corners(*e->Geometry());
    const bool straight = (e->Geometry()->Global(MatrixXd::Constant(1, 1, 0.5)) - cc.rowwise().mean()).norm() < 1e-13 * diam;
    const char* opts = mode == 0 ? "D" : mode == 1 ? "R" : mode == 2 ? "N" : mode == 3 ? "DN" : "DNR";
    char t = opts[rng.uni(0, (int)std::string(opts).size() - 1)];
    if (t == 'R' && !straight) t = 'D';
    type[k] = t;
    (t == 'D' ? nd : t == 'R' ? nr : nn)++;
  }
  // isolated pieces of the mesh must each be anchored: without a reaction term
  // all boundary edges become essential unless the mesh is connected
  const bool pure = !reaction && (nd == 0 && nr == 0);
  {
    std::vector<int> comp(m->NumEntities(2));
    for (std::size_t k = 0; k < comp.size(); ++k) comp[k] = k;
    std::function<int(int)> root = [&](int a) { return comp[a] == a ? a : comp[a] = root(comp[a]); };
    for (const Entity* e : m->Entities(1)) comp[root(m->Index(*e->SubEntities(1)[0]))] = root(m->Index(*e->SubEntities(1)[1]));
    std::set<int> roots;
    for (const Entity* k : m->Entities(0)) roots.insert(root(m->Index(*k->SubEntities(2)[0])));
    if (pure || (!reaction && roots.size() > 1)) {
      for (std::size_t k = 0; k < type.size(); ++k)
        if (cnt[k] == 1) type[k] = 'D';
      nd = 1, nr = nn = 0;
    }
    // nodes joined only by a point make the problem singular only if a piece is free
  }
  {
    // pieces joined at a single node are anchored by it; fully free pieces were handled
  }
  auto is = [&](char t) { return [&type, &m, t](const Entity& e) { return type[m->Index(e)] == t; }; };

  const auto& dofh = sp.sp->LocGlobMap();
  const int N = dofh.NumDofs();
  lf::assemble::COOMatrix<S> K(N, N);
  using V = Eigen::Matrix<S, Eigen::Dynamic, 1>;
  V b = V::Zero(N);
  const std::string tag = describe(d) + " / " + sp.name + " degree " + std::to_string(q) + (affine ? " affine" : "") + (reaction ? " reaction" : "") + " D" +
                          std::to_string(nd) + " N" + std::to_string(nn) + " R" + std::to_string(nr);
  const MeshFunctionGlobal mfa(alpha);
  const MeshFunctionGlobal mfg(gamma);
  const MeshFunctionGlobal mfe(eta);
  const MeshFunctionGlobal mfs(src);
  const MeshFunctionGlobal mfu(u);
  // A grad u . n (+ eta u)
  auto flux = [=](const VectorXd& x, const VectorXd& n) { return S(c * n.dot(alpha(x) * u1p->grad(x))); };
  const EdgeFn<S> neu{m, sides, std::make_shared<const std::function<S(const VectorXd&, const VectorXd&)>>(flux)};
  const EdgeFn<S> rob{m, sides, std::make_shared<const std::function<S(const VectorXd&, const VectorXd&)>>([=](const VectorXd& x, const VectorXd& n) { return S(flux(x, n) + eta(x) * u(x)); })};
  auto edge_terms = [&](auto&& mass, auto&& ln, auto&& lr) {
    lf::assemble::AssembleMatrixLocally(1, dofh, dofh, mass, K);
    lf::assemble::AssembleVectorLocally(1, dofh, ln, b);
    lf::assemble::AssembleVectorLocally(1, dofh, lr, b);
  };
  if constexpr (Uniform) {
    lf::uscalfe::ReactionDiffusionElementMatrixProvider el(usp, mfa, mfg);
    lf::uscalfe::ScalarLoadElementVectorProvider ld(usp, mfs);
    lf::assemble::AssembleMatrixLocally(0, dofh, dofh, el, K);
    lf::assemble::AssembleVectorLocally(0, dofh, ld, b);
    edge_terms(lf::uscalfe::MassEdgeMatrixProvider(usp, mfe, is('R')), lf::uscalfe::ScalarLoadEdgeVectorProvider<S, EdgeFn<S>, decltype(is('N'))>(usp, neu, is('N')),
               lf::uscalfe::ScalarLoadEdgeVectorProvider<S, EdgeFn<S>, decltype(is('R'))>(usp, rob, is('R')));
  } else {
    lf::fe::DiffusionElementMatrixProvider el(sp.sp, mfa);
    lf::fe::ScalarLoadElementVectorProvider ld(sp.sp, mfs);
    lf::assemble::AssembleMatrixLocally(0, dofh, dofh, el, K);
    if (reaction) {
      lf::fe::MassElementMatrixProvider ma(sp.sp, mfg);
      lf::assemble::AssembleMatrixLocally(0, dofh, dofh, ma, K);
    }
    lf::assemble::AssembleVectorLocally(0, dofh, ld, b);
    edge_terms(lf::fe::MassEdgeMatrixProvider(sp.sp, mfe, is('R')), lf::fe::ScalarLoadEdgeVectorProvider(sp.sp, neu, is('N')),
               lf::fe::ScalarLoadEdgeVectorProvider(sp.sp, rob, is('R')));
  }
  // the coefficients of the exact solution satisfy all equations of free
  // degrees of freedom
  const V ue = lf::fe::NodalProjection(*sp.sp, mfu);
  MON_REQUIRE(ue.size() == N, "projection", tag);
  const auto fixed = lf::fe::InitEssentialConditionFromFunction(*sp.sp, is('D'), mfu);
  MON_REQUIRE((int)fixed.size() == N, "flags", tag);
  const auto Ks = K.makeSparse();
  const V res = Ks * ue - b;
  const VectorXd mag = Ks.cwiseAbs() * ue.cwiseAbs().template cast<S>().real() + b.cwiseAbs();
  const double big = mag.maxCoeff();
  double umax = ue.cwiseAbs().maxCoeff() + 1e-300;
  for (int k = 0; k < N; ++k) {
    if (fixed[k].first) {
      MON_CHECK(std::abs(fixed[k].second - ue(k)) <= 1e-10 * umax, "essential_values", tag << " dof " << k << " " << fixed[k].second << " expected " << ue(k));
      event("fixed_dofs");
    } else {
      MON_CHECK(std::abs(res(k)) <= 1e-10 * (mag(k) + 1e-3 * big), "equation", tag << " dof " << k << " residual " << res(k) << " size " << mag(k) << " largest " << big);
      event("free_dofs");
    }
  }
  // flags exactly on the closure of essential edges
  {
    std::vector<bool> want(N, false);
    for (const Entity* e : m->Entities(1))
      if (type[m->Index(*e)] == 'D')
        for (auto k : dofh.GlobalDofIndices(*e)) want[k] = true;
    for (int k = 0; k < N; ++k) MON_CHECK(want[k] == fixed[k].first, "essential_flags", tag << " dof " << k);
  }
  if (rng.coin())
    lf::assemble::FixFlaggedSolutionComponents<S>([&](lf::assemble::glb_idx_t k) { return fixed[k]; }, K, b);
  else
    lf::assemble::FixFlaggedSolutionCompAlt<S>([&](lf::assemble::glb_idx_t k) { return fixed[k]; }, K, b);
  const auto Kf = K.makeSparse();
  double rc = 1;
  if (N <= 400) {
    const Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> Kd(Kf);
    rc = Kd.partialPivLu().rcond();
  } else {
    rc = 1e-6;
  }
  if (rc < 1e-9) {
    event("ill_conditioned");
    return;
  }
  Eigen::SparseLU<Eigen::SparseMatrix<S>> lu;
  lu.compute(Kf);
  MON_REQUIRE(lu.info() == Eigen::Success, "solvable", tag << " rcond " << rc);
  const V x = lu.solve(b);
  const lf::fe::MeshFunctionFE uh(sp.sp, x);
  const double tol = 1e-13 / rc + 1e-9;
  double cmax = 1e-300;
  for (const Entity* e : m->Entities(0)) {
    const MatrixXd X = e->Geometry()->Global(ref_points(rng, e->RefEl().NumNodes(), 1));
    cmax = std::max(cmax, std::abs(u(X.col(0))));
  }
  cmax = std::max(cmax, umax);
  for (const Entity* e : m->Entities(0)) {
    const MatrixXd xi = ref_points(rng, e->RefEl().NumNodes(), 3);
    const MatrixXd X = e->Geometry()->Global(xi);
    const auto v = uh(*e, xi);
    for (int k = 0; k < xi.cols(); ++k) {
      note("solution_error_over_tol", std::abs(v[k] - u(X.col(k))) / (tol * cmax));
      MON_CHECK(std::abs(v[k] - u(X.col(k))) <= tol * cmax, "solution", tag << " cell " << m->Index(*e) << " value " << v[k] << " exact " << u(X.col(k)) << " rcond " << rc);
    }
  }
  event("solved");
  event(affine ? "affine" : md == 2 ? "curved" : "bilinear");
  if (nr) event("impedance");
  if (nn) event("natural");
  if (nd) event("essential");
  sig(hcomb(d.hash(), hash_str(tag)));
  sample(tag);
}
}  // namespace

void mon::register_all() {
  stream("U03", "general", 120, 4000, patch<double, false>);
  stream("U03", "general_complex", 40, 1000, patch<cplx, false>);
  stream("U03", "uniform", 120, 4000, patch<double, true>);
  stream("U03", "uniform_complex", 30, 800, patch<cplx, true>);
  expect("U03", {"solved", "affine", "curved", "bilinear", "impedance", "natural", "essential", "fixed_dofs", "free_dofs"});
}
