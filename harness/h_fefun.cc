// F03, F04: finite element functions and projection.
#include "fem.h"

using namespace mon;
using namespace fem;

namespace {
template <class S>
using Mat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <class S>
using Row = Eigen::Matrix<S, 1, Eigen::Dynamic>;

template <class S>
std::unique_ptr<ScalarReferenceFiniteElement<S>> lagrange(RefEl re, int p) {
  using namespace lf::uscalfe;
  if (re == RefEl::kSegment()) {
    if (p == 1) return std::make_unique<FeLagrangeO1Segment<S>>();
    if (p == 2) return std::make_unique<FeLagrangeO2Segment<S>>();
    return std::make_unique<FeLagrangeO3Segment<S>>();
  }
  if (re == RefEl::kTria()) {
    if (p == 1) return std::make_unique<FeLagrangeO1Tria<S>>();
    if (p == 2) return std::make_unique<FeLagrangeO2Tria<S>>();
    return std::make_unique<FeLagrangeO3Tria<S>>();
  }
  if (p == 1) return std::make_unique<FeLagrangeO1Quad<S>>();
  if (p == 2) return std::make_unique<FeLagrangeO2Quad<S>>();
  return std::make_unique<FeLagrangeO3Quad<S>>();
}
Opts fem_opts(Rng& rng, int cells, bool affine = false) {
  Opts o;
  o.max_cells = cells;
  o.affine_only = affine;
  if (affine) o.curved = false;
  (void)rng;
  return o;
}
std::string tag_of(const Desc& d, const std::string& sp) { return describe(d) + " / " + sp; }

// ---- F03 ---------------------------------------------------------------------
template <class S, class C>
void continuity(Rng& rng, u64) {
  const Desc d = random_desc(rng, fem_opts(rng, thorough() ? 30 : 14));
  const auto m = build(d);
  const auto s = random_space<S>(rng, m, thorough() ? 9 : 6);
  const std::string tag = tag_of(d, s.name);
  const auto& dofh = s.sp->LocGlobMap();
  MON_CHECK(s.sp->Mesh() == m && dofh.Mesh() == m, "space_mesh", tag);
  using V = Eigen::Matrix<C, Eigen::Dynamic, 1>;
  const V c = rand_vec<C>(rng, dofh.NumDofs());
  const lf::fe::MeshFunctionFE u(s.sp, c);
  const lf::fe::MeshFunctionGradFE gu(s.sp, c);
  MON_CHECK(u.getMesh() == m && gu.getMesh() == m && u.getFESpace() == s.sp && gu.getFESpace() == s.sp, "function_mesh", tag);
  using R = std::decay_t<decltype(u(*m->Entities(0)[0], MatrixXd())[0])>;
  const double tol = 1e-11;
  // counts
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m->Entities(cd)) {
      const auto* fe = s.sp->ShapeFunctionLayout(*e);
      MON_REQUIRE(fe != nullptr && fe->RefEl() == e->RefEl(), "layout", tag);
      MON_CHECK(fe->NumRefShapeFunctions() == dofh.NumLocalDofs(*e), "layout_count", tag << " codim " << cd);
      MON_CHECK(s.sp->NumRefShapeFunctions(*e) == dofh.NumInteriorDofs(*e), "interior_count",
                tag << " codim " << cd << ": " << s.sp->NumRefShapeFunctions(*e) << " vs " << dofh.NumInteriorDofs(*e));
    }
  auto diff = [](const std::vector<R>& a, const std::vector<R>& b) {
    double r = a.size() == b.size() ? 0 : 1e300;
    for (std::size_t i = 0; i < a.size() && i < b.size(); ++i) {
      const double x = std::abs(a[i] - b[i]);
      if (!(x <= r)) r = x;
    }
    return r;
  };
  // values on nodes
  std::vector<R> nodal(m->NumEntities(2));
  for (const Entity* p : m->Entities(2)) {
    const auto v = u(*p, MatrixXd(0, 1));
    MON_REQUIRE(v.size() == 1, "value_count", tag);
    nodal[m->Index(*p)] = v[0];
  }
  for (const Entity* e : m->Entities(1)) {
    MatrixXd e01(1, 2);
    e01 << 0, 1;
    const auto v = u(*e, e01);
    const auto pts = e->SubEntities(1);
    MON_CHECK(diff(v, {nodal[m->Index(*pts[0])], nodal[m->Index(*pts[1])]}) < tol, "edge_node", tag << " edge " << m->Index(*e));
  }
  for (const Entity* cell : m->Entities(0)) {
    const int nc = cell->RefEl().NumNodes();
    const auto nd = cell->SubEntities(2), ed = cell->SubEntities(1);
    const auto ori = cell->RelativeOrientations();
    {
      const auto v = u(*cell, cell->RefEl().NodeCoords());
      std::vector<R> ex;
      for (auto* p : nd) ex.push_back(nodal[m->Index(*p)]);
      MON_CHECK(diff(v, ex) < tol, "cell_node", tag << " cell " << m->Index(*cell));
    }
    for (int i = 0; i < nc; ++i) {
      VectorXd t(3);
      t << rng.real(), rng.real(), 0.5;
      const auto a = u(*cell, side_points(nc, i, t));
      const bool pos = ori[i] == lf::mesh::Orientation::positive;
      const MatrixXd te = pos ? MatrixXd(t.transpose()) : MatrixXd(1.0 - t.transpose().array());
      const auto b = u(*ed[i], te);
      const double e = diff(a, b);
      note("trace_err", e);
      MON_CHECK(e < tol, "cell_edge", tag << " cell " << m->Index(*cell) << " side " << i << (pos ? "+" : "-") << " error " << e);
      event(pos ? "side_positive" : "side_negative");
    }
  }
  // gradients
  auto grad_check = [&](const Entity& e) {
    const int dim = e.RefEl().Dimension(), nc = e.RefEl().NumNodes();
    const Lobatto& lo = lobatto(s.pmax + 1);
    for (int dd = 0; dd < dim; ++dd) {
      VectorXd p = ref_point(rng, nc, true);
      double len = 1;
      if (nc == 3) {
        p(1 - dd) *= 0.7;
        len = 1 - p(1 - dd);
      }
      MatrixXd x = p.replicate(1, lo.t.size());
      for (int k = 0; k < lo.t.size(); ++k) x(dd, k) = len * lo.t(k);
      const auto v = u(e, x);
      const auto g = gu(e, x);
      const MatrixXd J = e.Geometry()->Jacobian(x);
      MON_REQUIRE(g.size() == v.size() && (int)v.size() == x.cols(), "value_count", tag);
      Eigen::Matrix<R, Eigen::Dynamic, 1> vv(x.cols());
      for (int k = 0; k < x.cols(); ++k) vv(k) = v[k];
      const Eigen::Matrix<R, Eigen::Dynamic, 1> dv = lo.D * vv / len;
      const double sc = 1 + dv.cwiseAbs().maxCoeff();
      for (int k = 0; k < x.cols(); ++k) {
        MON_REQUIRE(g[k].size() == d.dw, "gradient_size", tag);
        const MatrixXd Jk = J.middleCols(dim * k, dim);
        // directional derivative along the image of the coordinate line
        const R dir = (Jk.col(dd).transpose() * g[k])(0);
        const double gs = Jk.col(dd).norm() * g[k].norm();
        const double e1 = std::abs(dir - dv(k)), t1 = 1e-9 * (sc + gs);
        note("gradient_err_over_tol", e1 / t1);
        MON_CHECK(e1 <= t1, "gradient", tag << " codim " << e.Codim() << " entity " << m->Index(e) << " got " << dir << " expected " << dv(k));
        // tangential to the entity
        const auto tang = (Jk * (Jk.transpose() * Jk).ldlt().solve(MatrixXd(Jk.transpose())) * g[k]).eval();
        MON_CHECK((tang - g[k]).norm() <= 1e-7 * (g[k].norm()) + 1e-300, "gradient_tangential", tag << " codim " << e.Codim());
      }
    }
  };
  for (const Entity* cell : m->Entities(0))
    if (rng.coin(0.5)) grad_check(*cell);
  for (const Entity* e : m->Entities(1))
    if (rng.coin(0.2)) grad_check(*e);
  sig(hcomb(d.hash(), hash_str(s.name)));
  event(s.lagrange ? "space_lagrange" : s.uniform ? "space_hierarchic" : "space_variable");
  sample(tag);
}

// a space lacking one cell type or the edge functions
void partial_space(Rng& rng, u64) {
  Opts o = fem_opts(rng, 10);
  const bool tria = rng.coin();
  (tria ? o.quad : o.tria) = false;
  const Desc d = random_desc(rng, o);
  const auto m = build(d);
  using namespace lf::uscalfe;
  const int p = rng.uni(1, 3);
  std::shared_ptr<const ScalarReferenceFiniteElement<double>> ft = lagrange<double>(RefEl::kTria(), p), fq = lagrange<double>(RefEl::kQuad(), p), fs = lagrange<double>(RefEl::kSegment(), p);
  const bool edge = rng.coin();
  std::shared_ptr<UniformScalarFESpace<double>> sp;
  if (!no_throw("partial_construct", [&] { sp = std::make_shared<UniformScalarFESpace<double>>(m, tria ? ft : nullptr, tria ? nullptr : fq, edge ? fs : nullptr); })) return;
  const std::string tag = describe(d) + (tria ? " triangles only" : " quads only");
  no_throw("partial_queries", [&] {
    for (unsigned cd = 0; cd <= 2; ++cd)
      for (const Entity* e : m->Entities(cd))
        MON_CHECK(sp->NumRefShapeFunctions(*e) == sp->LocGlobMap().NumInteriorDofs(*e), "partial_count", tag << " codim " << cd);
    const lf::base::RefEl re = tria ? RefEl::kTria() : RefEl::kQuad();
    MON_CHECK(sp->NumRefShapeFunctions(re) == (tria ? ft : fq)->NumRefShapeFunctions(0) && sp->NumRefShapeFunctions(RefEl::kSegment()) == unsigned(p - 1) && sp->NumRefShapeFunctions(RefEl::kPoint()) == 1, "partial_count", tag);
  });
  const auto* e0 = m->Entities(1)[0];
  MON_CHECK((sp->ShapeFunctionLayout(*e0) != nullptr) == edge, "partial_edge_layout", tag);
  MON_CHECK(sp->ShapeFunctionLayout(tria ? RefEl::kQuad() : RefEl::kTria()) == nullptr, "partial_no_layout", tag);
  MON_CHECK(sp->ShapeFunctionLayout(*m->Entities(0)[0]) == (tria ? ft : fq).get(), "partial_layout", tag);
  // functions on it
  const VectorXd c = rand_vec<double>(rng, sp->LocGlobMap().NumDofs());
  const lf::fe::MeshFunctionFE u(sp, c);
  const lf::uscalfe::UniformScalarFESpace<double>& spr = *sp;
  std::ostringstream os;
  no_throw("partial_print", [&] {
    os << spr;
    PrintInfo(os, spr, kUniformScalarFESpaceOutMesh | kUniformScalarFESpaceOutDofh | kUniformScalarFESpaceOutRsfs);
    const ScalarFESpace<double>& b = spr;
    os << b;
  });
  MON_CHECK(os.str().find("dim = " + std::to_string(sp->LocGlobMap().NumDofs())) != std::string::npos, "partial_print_dim", os.str().substr(0, 80));
  const auto back = lf::fe::NodalProjection(*sp, u);
  MON_CHECK((back - c).cwiseAbs().maxCoeff() < 1e-11, "partial_projection", tag);
  // a mesh with the other cell type is refused
  Opts o2 = fem_opts(rng, 6);
  (tria ? o2.tria : o2.quad) = false;
  const auto m2 = build(random_desc(rng, o2));
  must_fail("partial_refused", "cells without shape functions", [&] { UniformScalarFESpace<double> bad(m2, tria ? ft : nullptr, tria ? nullptr : fq); });
  must_fail("partial_refused", "no cells' shape functions", [&] { UniformScalarFESpace<double> bad(m2, nullptr, nullptr); });
  must_fail("partial_refused", "no mesh", [&] { UniformScalarFESpace<double> bad(nullptr, ft, fq); });
  must_fail("partial_mixed_refused", "incompatible edge functions", [&] { UniformScalarFESpace<double> bad(m, lagrange<double>(RefEl::kTria(), 1), lagrange<double>(RefEl::kQuad(), 2)); });
  sig(d.hash());
}

void reproduces(Rng& rng, u64) {
  const Desc d = random_desc(rng, fem_opts(rng, thorough() ? 40 : 16, true));
  const auto m = build(d);
  const auto s = random_space<double>(rng, m, thorough() ? 10 : 6);
  const std::string tag = tag_of(d, s.name);
  const PhysPoly q(rng, s.pmin, d.P);
  const lf::mesh::utils::MeshFunctionGlobal f([&](const VectorXd& x) { return q(x); });
  const VectorXd c = lf::fe::NodalProjection(*s.sp, f);
  MON_REQUIRE(c.size() == s.sp->LocGlobMap().NumDofs(), "projection_size", tag);
  const lf::fe::MeshFunctionFE u(s.sp, c);
  const lf::fe::MeshFunctionGradFE gu(s.sp, c);
  double sc = 1;
  for (int i = 0; i < d.np(); ++i) sc = std::max(sc, std::abs(q(d.P.col(i))));
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m->Entities(cd)) {
      const MatrixXd x = cd == 2 ? MatrixXd(0, 1) : ref_points(rng, e->RefEl().NumNodes(), 3);
      const MatrixXd X = e->Geometry()->Global(x);
      const auto v = u(*e, x);
      for (int k = 0; k < x.cols(); ++k) {
        const double err = std::abs(v[k] - q(X.col(k)));
        note("reproduces_err", err / sc);
        MON_CHECK(err < 1e-10 * sc, "polynomial", tag << " degree " << s.pmin << " codim " << cd << " got " << v[k] << " expected " << q(X.col(k)));
      }
      if (cd == 0) {
        const auto g = gu(*e, x);
        const MatrixXd J = e->Geometry()->Jacobian(x);
        for (int k = 0; k < x.cols(); ++k) {
          const VectorXd ex = q.grad(X.col(k));
          // only the tangential part is determined
          for (int j = 0; j < 2; ++j) {
            const VectorXd t = J.col(2 * k + j);
            MON_CHECK(std::abs(t.dot(g[k]) - t.dot(ex)) < 1e-8 * (sc + t.norm() * (ex.norm() + g[k].norm())), "polynomial_gradient", tag);
          }
        }
      }
    }
  sig(hcomb(d.hash(), hash_str(s.name)));
  event(s.lagrange ? "reproduce_lagrange" : s.uniform ? "reproduce_hierarchic" : "reproduce_variable");
}

// ---- F04 ---------------------------------------------------------------------
template <class S>
void projection(Rng& rng, u64) {
  const Desc d = random_desc(rng, fem_opts(rng, thorough() ? 40 : 16));
  const auto m = build(d);
  const auto s = random_space<S>(rng, m, thorough() ? 9 : 6);
  const std::string tag = tag_of(d, s.name);
  const auto& dofh = s.sp->LocGlobMap();
  const int N = dofh.NumDofs();
  using V = Eigen::Matrix<S, Eigen::Dynamic, 1>;
  const V c = rand_vec<S>(rng, N);
  const lf::fe::MeshFunctionFE u(s.sp, c);
  const double tol = 3e-11 * std::pow(s.pmax, 2.0);
  const V back = lf::fe::NodalProjection(*s.sp, u);
  MON_REQUIRE(back.size() == N, "projection_size", tag);
  note("projection_err_over_tol", (back - c).cwiseAbs().maxCoeff() / tol);
  MON_CHECK((back - c).cwiseAbs().maxCoeff() <= tol, "idempotent", tag << " error " << (back - c).cwiseAbs().maxCoeff());
  // selected cells
  std::vector<bool> sel(m->NumEntities(0));
  const double ps = rng.coin(0.15) ? 0.0 : rng.coin(0.15) ? 1.0 : rng.real();
  for (std::size_t i = 0; i < sel.size(); ++i) sel[i] = rng.coin(ps);
  std::vector<int> asked(sel.size(), 0);
  auto pred = [&](const Entity& e) {
    asked[m->Index(e)]++;
    return bool(sel[m->Index(e)]);
  };
  const V part = lf::fe::NodalProjection(*s.sp, u, pred);
  std::vector<bool> covered(N, false);
  for (const Entity* e : m->Entities(0))
    if (sel[m->Index(*e)])
      for (auto g : dofh.GlobalDofIndices(*e)) covered[g] = true;
  for (int i = 0; i < N; ++i) {
    const S ex = covered[i] ? c(i) : S(0);
    MON_CHECK(std::abs(part(i) - ex) <= tol, "selected_cells", tag << " dof " << i << (covered[i] ? " covered" : " not covered") << " got " << part(i) << " expected " << ex);
  }
  for (std::size_t i = 0; i < sel.size(); ++i) MON_CHECK(asked[i] == 1, "predicate_asked", tag << " cell " << i << " asked " << asked[i] << " times");
  // boundary interpolation
  std::vector<bool> es(m->NumEntities(1));
  const int st = rng.uni(0, 4);
  std::vector<int> adj(es.size(), 0);
  for (const Entity* e : m->Entities(0))
    for (auto* k : e->SubEntities(1)) adj[m->Index(*k)]++;
  const double pe = rng.real();
  for (std::size_t i = 0; i < es.size(); ++i) es[i] = st == 0 ? adj[i] == 1 : st == 1 ? false : st == 2 ? true : rng.coin(pe);
  auto epred = [&](const Entity& e) { return bool(es[m->Index(e)]); };
  const auto fv = lf::fe::InitEssentialConditionFromFunction(*s.sp, epred, u);
  MON_REQUIRE((int)fv.size() == N, "essential_size", tag);
  std::vector<bool> ess(N, false);
  for (const Entity* e : m->Entities(1))
    if (es[m->Index(*e)]) {
      for (auto g : dofh.InteriorGlobalDofIndices(*e)) ess[g] = true;
      for (auto* p : e->SubEntities(1))
        for (auto g : dofh.InteriorGlobalDofIndices(*p)) ess[g] = true;
    }
  for (int i = 0; i < N; ++i) {
    MON_CHECK(fv[i].first == ess[i], "essential_flag", tag << " dof " << i << " flagged " << fv[i].first << " expected " << ess[i]);
    if (ess[i])
      MON_CHECK(std::abs(fv[i].second - c(i)) <= tol, "essential_value", tag << " dof " << i << " got " << fv[i].second << " expected " << c(i));
    else
      MON_CHECK(fv[i].second == S(0), "essential_unset", tag << " dof " << i);
  }
  // interpolation of arbitrary data agrees with it at the nodes
  if (d.dw == 2) {
    const lf::mesh::utils::MeshFunctionGlobal g([&](const VectorXd& x) -> S { return S(std::sin(1.3 * x(0)) + x(1)); });
    const V cg = lf::fe::NodalProjection(*s.sp, g);
    const lf::fe::MeshFunctionFE ug(s.sp, cg);
    double big = 1 + d.P.cwiseAbs().maxCoeff();
    for (const Entity* p : m->Entities(2)) {
      const VectorXd x = node_pos(*p);
      MON_CHECK(std::abs(ug(*p, MatrixXd(0, 1))[0] - S(std::sin(1.3 * x(0)) + x(1))) < 1e-11 * big, "interpolates_nodes", tag);
    }
    const auto fg = lf::fe::InitEssentialConditionFromFunction(*s.sp, epred, g);
    // interpolant on an edge is the edge's own interpolant
    for (int i = 0; i < N; ++i)
      if (fg[i].first && s.uniform && !d.curved())
        MON_CHECK(std::abs(fg[i].second - cg(i)) < 1e-9 * big * s.pmax * s.pmax, "essential_consistent", tag << " dof " << i << " " << fg[i].second << " vs " << cg(i));
  }
  sig(hcomb(d.hash(), hash_str(s.name)));
  event(s.lagrange ? "project_lagrange" : s.uniform ? "project_hierarchic" : "project_variable");
}

}  // namespace

void mon::register_all() {
  stream("F03", "continuity", 60, 1500, continuity<double, double>);
  stream("F03", "continuity_complex", 12, 300, continuity<cplx, cplx>);
  stream("F03", "continuity_mixed", 12, 300, continuity<double, cplx>);
  stream("F03", "reproduces", 80, 1500, reproduces);
  stream("F03", "partial", 60, 800, partial_space);
  expect("F03", {"side_positive", "side_negative", "space_lagrange", "space_hierarchic", "space_variable", "reproduce_lagrange", "reproduce_hierarchic", "reproduce_variable"});
  stream("F04", "projection", 90, 2500, projection<double>);
  stream("F04", "projection_complex", 30, 800, projection<cplx>);
  expect("F04", {"project_lagrange", "project_hierarchic", "project_variable", "selected_cells", "essential_value"});
}
