// U04: invariance under renumbering, reversed edges and rotated cells.
#include <Eigen/SparseLU>
#include <lf/refinement/refinement.h>

#include "ell.h"

using namespace mon;
using namespace ell;

namespace {
namespace lmu = lf::mesh::utils;
struct Renum {
  Desc d;
  std::vector<int> node, cell;          // old -> new
  std::vector<std::vector<int>> corner;  // per old cell: new corner j is old corner corner[j]
};
Renum renumber(Rng& r, const Desc& a) {
  Renum R;
  R.d.dw = a.dw;
  R.d.kind = a.kind + "~";
  const int n = a.np(), nc = (int)a.cells.size();
  R.node.resize(n);
  for (int i = 0; i < n; ++i) R.node[i] = i;
  r.shuffle(R.node);
  R.d.P.resize(a.P.rows(), n);
  for (int i = 0; i < n; ++i) R.d.P.col(R.node[i]) = a.P.col(i);
  for (auto& [e, x] : a.mid) R.d.mid[ekey(R.node[e.first], R.node[e.second])] = x;
  R.cell.resize(nc);
  for (int i = 0; i < nc; ++i) R.cell[i] = i;
  r.shuffle(R.cell);
  R.d.cells.resize(nc);
  R.corner.resize(nc);
  const double reverse = r.coin() ? 0.0 : 0.5;
  for (int c = 0; c < nc; ++c) {
    const int k = (int)a.cells[c].v.size(), rot = r.uni(0, k - 1);
    const bool rev = r.coin(reverse);
    Cell x;
    x.geo = a.cells[c].geo;
    for (int j = 0; j < k; ++j) {
      const int o = rev ? (rot + k - j) % k : (rot + j) % k;
      R.corner[c].push_back(o);
      x.v.push_back(R.node[a.cells[c].v[o]]);
    }
    R.d.cells[R.cell[c]] = x;
  }
  for (SupEdge e : a.edges) {
    e.a = R.node[e.a], e.b = R.node[e.b];
    if (r.coin()) std::swap(e.a, e.b);
    R.d.edges.push_back(e);
  }
  if (r.coin(0.3)) {  // give more edges explicitly
    std::set<Edge2> have;
    for (auto& e : R.d.edges) have.insert(ekey(e.a, e.b));
    for (auto& [e, cs] : R.d.edge_cells()) {
      (void)cs;
      if (have.count(e) || r.coin()) continue;
      SupEdge s;
      s.a = e.first, s.b = e.second;
      if (r.coin()) std::swap(s.a, s.b);
      s.geo = R.d.mid.count(e) ? kO2 : kO1;
      R.d.edges.push_back(s);
    }
  }
  r.shuffle(R.d.edges);
  return R;
}
MatrixXd ref_corners(int nc) {
  MatrixXd c(2, nc);
  if (nc == 3)
    c << 0, 1, 0, 0, 0, 1;
  else
    c << 0, 1, 1, 0, 0, 0, 1, 1;
  return c;
}
// reference coordinates in the new cell
MatrixXd to_new(const std::vector<int>& corner, const MatrixXd& x) {
  const int nc = (int)corner.size();
  const MatrixXd c = ref_corners(nc);
  Eigen::Matrix3d S, T;  // old corner coordinates -> new
  for (int k = 0; k < 3; ++k) {
    const int j = nc == 3 ? k : (k == 2 ? 3 : k);
    S.col(k) << c.col(corner[j]), 1;
    T.col(k) << c.col(j), 1;
  }
  const Eigen::Matrix3d A = T * S.inverse();
  MatrixXd h(3, x.cols());
  h << x, Eigen::RowVectorXd::Ones(x.cols());
  return (A * h).topRows(2);
}
bool symmetric_rule(int nc, int degree) {
  static std::map<std::pair<int, int>, bool> memo;
  auto it = memo.find({nc, degree});
  if (it != memo.end()) return it->second;
  const auto q = lf::quad::make_QuadRule(ref_of(nc), degree);
  const MatrixXd x = q.Points();
  const VectorXd w = q.Weights();
  bool ok = true;
  for (int rot = 0; rot < nc; ++rot)
    for (bool rev : {false, true}) {
      std::vector<int> c;
      for (int j = 0; j < nc; ++j) c.push_back(rev ? (rot + nc - j) % nc : (rot + j) % nc);
      const MatrixXd y = to_new(c, x);
      for (int k = 0; k < y.cols(); ++k) {
        bool hit = false;
        for (int l = 0; l < x.cols(); ++l) hit = hit || ((y.col(k) - x.col(l)).norm() < 1e-13 && std::abs(w(k) - w(l)) < 1e-14);
        ok = ok && hit;
      }
    }
  return memo[{nc, degree}] = ok;
}
struct Pair {
  Desc a;
  Renum r;
  std::shared_ptr<lf::mesh::Mesh> ma, mb;
  std::vector<int> edge;  // old -> new
  bool affine = true;
  std::string tag;
};
Pair make_pair_of_meshes(Rng& rng, const Opts& o) {
  Pair p;
  p.a = random_desc(rng, o);
  p.r = renumber(rng, p.a);
  p.ma = build(p.a);
  p.mb = build(p.r.d);
  p.tag = describe(p.a);
  for (int cd = 0; cd < 3; ++cd) MON_REQUIRE(p.ma->NumEntities(cd) == p.mb->NumEntities(cd), "entity_counts", p.tag << " codim " << cd << " " << p.ma->NumEntities(cd) << " " << p.mb->NumEntities(cd));
  std::map<Edge2, int> eb;
  for (const Entity* e : p.mb->Entities(1)) eb[ekey(p.mb->Index(*e->SubEntities(1)[0]), p.mb->Index(*e->SubEntities(1)[1]))] = p.mb->Index(*e);
  for (unsigned i = 0; i < p.ma->NumEntities(1); ++i) {
    const Entity* e = p.ma->EntityByIndex(1, i);
    const Edge2 k = ekey(p.r.node[p.ma->Index(*e->SubEntities(1)[0])], p.r.node[p.ma->Index(*e->SubEntities(1)[1])]);
    MON_REQUIRE(eb.count(k), "edge_exists", p.tag << " edge " << i);
    p.edge.push_back(eb[k]);
  }
  for (const Entity* c : p.ma->Entities(0)) p.affine = p.affine && affine_cell(*c);
  return p;
}
const Entity* image(const Pair& p, const Entity& e) {
  const unsigned i = p.ma->Index(e);
  const int k = e.Codim() == 0 ? p.r.cell[i] : e.Codim() == 1 ? p.edge[i] : p.r.node[i];
  return p.mb->EntityByIndex(e.Codim(), k);
}
MatrixXd image_points(const Pair& p, const Entity& e, const MatrixXd& x) {
  if (e.Codim() == 0) return to_new(p.r.corner[p.ma->Index(e)], x);
  if (e.Codim() == 2) return x;
  const Entity* f = image(p, e);
  const bool same = p.r.node[p.ma->Index(*e.SubEntities(1)[0])] == (int)p.mb->Index(*f->SubEntities(1)[0]);
  return same ? x : MatrixXd(1 - x.array());
}

void geometry_level(Rng& rng, u64) {
  Opts o;
  o.max_cells = 16;
  const Pair p = make_pair_of_meshes(rng, o);
  const auto bA = lmu::flagEntitiesOnBoundary(p.ma), bB = lmu::flagEntitiesOnBoundary(p.mb);
  const double dm = p.a.diam();
  for (unsigned cd = 0; cd < 3; ++cd) {
    const auto b1 = lmu::flagEntitiesOnBoundary(p.ma, std::max(cd, 1U)), b2 = lmu::flagEntitiesOnBoundary(p.mb, std::max(cd, 1U));
    for (const Entity* e : p.ma->Entities(cd)) {
      const Entity* f = image(p, *e);
      MON_CHECK(e->RefEl() == f->RefEl(), "type", p.tag);
      MON_CHECK(bA(*e) == bB(*f) && (cd == 0 || b1(*e) == b2(*f)), "boundary_flags", p.tag << " codim " << cd << " entity " << p.ma->Index(*e));
      const double v1 = lf::geometry::Volume(*e->Geometry()), v2 = lf::geometry::Volume(*f->Geometry());
      // the volume is computed by a one- or few-point rule on curved entities
      if (affine_cell(*e)) MON_CHECK(std::abs(v1 - v2) <= 1e-11 * (v1 + std::pow(dm, 2 - cd) * 1e-3), "volume", p.tag << " codim " << cd << " " << v1 << " " << v2);
      const MatrixXd x = cd == 2 ? MatrixXd(0, 1) : ref_points(rng, e->RefEl().NumNodes(), 4);
      const MatrixXd y = image_points(p, *e, x);
      MON_CHECK((e->Geometry()->Global(x) - f->Geometry()->Global(y)).norm() <= 1e-11 * dm * 4, "shape", p.tag << " codim " << cd << " entity " << p.ma->Index(*e));
      if (cd < 2) {
        const VectorXd d1 = e->Geometry()->IntegrationElement(x), d2 = f->Geometry()->IntegrationElement(y);
        MON_CHECK((d1 - d2).norm() <= 1e-10 * d1.norm(), "metric", p.tag << " codim " << cd);
      }
    }
  }
  for (unsigned cd = 1; cd < 3; ++cd)
    for (unsigned up = 1; up <= cd; ++up) {
      const auto c1 = lmu::CountNumSuperEntities(p.ma, cd, up), c2 = lmu::CountNumSuperEntities(p.mb, cd, up);
      for (const Entity* e : p.ma->Entities(cd)) MON_CHECK(c1(*e) == c2(*image(p, *e)), "super_entities", p.tag);
    }
  // integrals
  const int q = rng.uni(0, 4), deg = q * (p.a.curved() ? 2 : 1) + 4;
  if (p.a.dw == 2 || p.affine) {
    auto P = std::make_shared<PhysPoly>(rng, q, p.a.P);
    const MeshFunctionGlobal f([P](const VectorXd& x) { return (*P)(x); });
    const MeshFunctionGlobal fabs([P](const VectorXd& x) { return (*P)(x) * (*P)(x); });
    const double i1 = lf::fe::IntegrateMeshFunction(*p.ma, f, deg), i2 = lf::fe::IntegrateMeshFunction(*p.mb, f, deg);
    const double s = std::sqrt(lf::fe::IntegrateMeshFunction(*p.ma, fabs, 2 * deg) * lf::fe::IntegrateMeshFunction(*p.ma, MeshFunctionConstant<double>(1.0), deg));
    MON_CHECK(std::abs(i1 - i2) <= 1e-11 * s, "integral", p.tag << " " << i1 << " " << i2);
    event("integrals");
  }
  // uniform refinement gives the same set of nodes and boundary
  if (rng.coin(0.3) && p.a.cells.size() <= 8) {
    using namespace lf::refinement;
    std::vector<MatrixXd> X;
    std::vector<std::vector<bool>> B;
    const RefPat pat = rng.coin(0.7) ? RefPat::rp_regular : RefPat::rp_barycentric;
    for (auto& m : {p.ma, p.mb}) {
      MeshHierarchy h(m, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(p.a.dw));
      h.RefineRegular(pat);
      auto fm = h.getMesh(1);
      const auto bd = lmu::flagEntitiesOnBoundary(fm, 2);
      MatrixXd x(p.a.dw, fm->NumEntities(2));
      std::vector<bool> b;
      for (const Entity* e : fm->Entities(2)) x.col(fm->Index(*e)) = node_pos(*e);
      for (const Entity* e : fm->Entities(2)) b.push_back(bd(*e));
      X.push_back(x), B.push_back(b);
    }
    MON_REQUIRE(X[0].cols() == X[1].cols(), "refined_count", p.tag);
    for (int i = 0; i < X[0].cols(); ++i) {
      bool found = false;
      for (int j = 0; j < X[1].cols(); ++j) found = found || ((X[0].col(i) - X[1].col(j)).norm() < 1e-11 * dm && B[0][i] == B[1][j]);
      MON_CHECK(found, "refined_nodes", p.tag << " pattern " << (int)pat << " node " << i);
    }
    event("refined");
  }
  sig(p.r.d.hash());
  sample(p.tag);
}

bool rules_fit(const Pair& p, int degree) {
  for (const Entity* c : p.ma->Entities(0))
    if (!affine_cell(*c) && !symmetric_rule(c->RefEl().NumNodes(), degree)) return false;
  return true;
}

// Lagrangian spaces: matrices and vectors are permuted
void lagrange(Rng& rng, u64 i) {
  Opts o;
  o.max_cells = thorough() ? 20 : 10;
  o.affine_only = rng.coin(0.3);
  const Pair p = make_pair_of_meshes(rng, o);
  const int deg = 1 + i % 3;
  const auto sa = lagrange_space<double>(p.ma, deg), sb = lagrange_space<double>(p.mb, deg);
  const auto &da = sa->LocGlobMap(), &db = sb->LocGlobMap();
  const int N = da.NumDofs();
  MON_REQUIRE(N == (int)db.NumDofs(), "dof_count", p.tag);
  // induced permutation
  std::vector<int> perm(N, -1), inv(N, -1);
  for (const Entity* c : p.ma->Entities(0)) {
    const Entity* f = image(p, *c);
    const MatrixXd x = image_points(p, *c, sa->ShapeFunctionLayout(*c)->EvaluationNodes());
    const MatrixXd y = sb->ShapeFunctionLayout(*f)->EvaluationNodes();
    const auto ga = da.GlobalDofIndices(*c), gb = db.GlobalDofIndices(*f);
    for (int k = 0; k < x.cols(); ++k) {
      // interior functions of an edge are numbered along the edge, so the
      // position decides only up to the direction used by the cell
      int hit = -1;
      for (int l = 0; l < y.cols(); ++l)
        if ((x.col(k) - y.col(l)).norm() < 1e-12) hit = l;
      MON_REQUIRE(hit >= 0, "nodes_match", p.tag << " node " << k);
      // the local order follows the reference cell; global indices are already
      // arranged for the direction of the edge
      const int a = ga[k], b = gb[hit];
      MON_CHECK(perm[a] == -1 || perm[a] == b, "permutation", p.tag << " dof " << a << " -> " << perm[a] << " or " << b);
      MON_CHECK(inv[b] == -1 || inv[b] == a, "permutation", p.tag << " dof " << b);
      perm[a] = b, inv[b] = a;
    }
  }
  for (int k = 0; k < N; ++k) MON_REQUIRE(perm[k] >= 0, "permutation", p.tag << " dof " << k << " unreached");
  const bool fit = rules_fit(p, 2 * deg);
  // on affine cells the triangle rule may be unsymmetric, so coefficients must
  // be integrated exactly
  int kc = 1;
  bool sym_all = true;
  for (int nc : {3, 4}) sym_all = sym_all && symmetric_rule(nc, 2 * deg);
  (void)kc;
  auto Pc = std::make_shared<PhysPoly>(rng, 1, p.a.P);
  const double c0 = rng.real(1, 2);
  // mass and load need exact integration of coefficient * products
  const bool wild = sym_all;
  auto fun = [Pc, c0, wild](const VectorXd& x) { return wild ? c0 + std::sin((*Pc)(x)) : c0; };
  const MeshFunctionGlobal cf(fun);
  lf::assemble::COOMatrix<double> A(N, N), B(N, N), EA(N, N), EB(N, N);
  VectorXd fa = VectorXd::Zero(N), fb = VectorXd::Zero(N);
  const auto bdA = lmu::flagEntitiesOnBoundary(p.ma, 1), bdB = lmu::flagEntitiesOnBoundary(p.mb, 1);
  if (fit) {
    auto go = [&](auto sp, auto& M, auto& E, auto& f, auto& bd) {
      const auto& dh = sp->LocGlobMap();
      lf::uscalfe::ReactionDiffusionElementMatrixProvider el(sp, cf, cf);
      lf::uscalfe::ScalarLoadElementVectorProvider ld(sp, cf);
      lf::uscalfe::MassEdgeMatrixProvider em(sp, cf, bd);
      lf::uscalfe::ScalarLoadEdgeVectorProvider<double, decltype(cf), std::decay_t<decltype(bd)>> ev(sp, cf, bd);
      lf::assemble::AssembleMatrixLocally(0, dh, dh, el, M);
      lf::assemble::AssembleMatrixLocally(1, dh, dh, em, E);
      lf::assemble::AssembleVectorLocally(0, dh, ld, f);
      lf::assemble::AssembleVectorLocally(1, dh, ev, f);
    };
    go(sa, A, EA, fa, bdA);
    go(sb, B, EB, fb, bdB);
    for (auto [X, Y, nm] : {std::make_tuple(&A, &B, "cells"), std::make_tuple(&EA, &EB, "edges")}) {
      const MatrixXd x(X->makeDense()), y(Y->makeDense());
      const double s = x.cwiseAbs().maxCoeff() + 1e-300;
      for (int k = 0; k < N; ++k)
        for (int l = 0; l < N; ++l)
          MON_CHECK(std::abs(x(k, l) - y(perm[k], perm[l])) <= 1e-11 * s, "operator", p.tag << " degree " << deg << " " << nm << " entry (" << k << "," << l << ") " << x(k, l) << " " << y(perm[k], perm[l]));
    }
    for (int k = 0; k < N; ++k) MON_CHECK(std::abs(fa(k) - fb(perm[k])) <= 1e-11 * fa.cwiseAbs().maxCoeff(), "load", p.tag << " dof " << k);
    event(wild ? "operators_variable" : "operators_constant");
  }
  // interpolation and essential conditions
  const VectorXd ia = lf::fe::NodalProjection(*sa, cf), ib = lf::fe::NodalProjection(*sb, cf);
  const auto ea = lf::fe::InitEssentialConditionFromFunction(*sa, bdA, cf), eb = lf::fe::InitEssentialConditionFromFunction(*sb, bdB, cf);
  for (int k = 0; k < N; ++k) {
    MON_CHECK(std::abs(ia(k) - ib(perm[k])) <= 1e-12 * 4, "interpolation", p.tag << " dof " << k);
    MON_CHECK(ea[k].first == eb[perm[k]].first && std::abs(ea[k].second - eb[perm[k]].second) <= 4e-12, "essential", p.tag << " dof " << k);
  }
  // finite element functions
  const VectorXd u = rand_vec<double>(rng, N);
  VectorXd v(N);
  for (int k = 0; k < N; ++k) v(perm[k]) = u(k);
  const lf::fe::MeshFunctionFE ua(sa, u), ub(sb, v);
  const lf::fe::MeshFunctionGradFE ga(sa, u), gb(sb, v);
  for (unsigned cd = 0; cd < 3; ++cd)
    for (const Entity* e : p.ma->Entities(cd)) {
      const Entity* f = image(p, *e);
      const MatrixXd x = cd == 2 ? MatrixXd(0, 1) : ref_points(rng, e->RefEl().NumNodes(), 2);
      const MatrixXd y = image_points(p, *e, x);
      const auto va = ua(*e, x), vb = ub(*f, y);
      for (int k = 0; k < x.cols(); ++k) MON_CHECK(std::abs(va[k] - vb[k]) <= 1e-10, "function", p.tag << " codim " << cd << " " << va[k] << " " << vb[k]);
      if (cd == 0) {
        const auto wa = ga(*e, x), wb = gb(*f, y);
        for (int k = 0; k < x.cols(); ++k) MON_CHECK((wa[k] - wb[k]).norm() <= 1e-9 * (wa[k].norm() + 1 / p.a.diam()), "gradient", p.tag);
      }
    }
  event("degree_" + std::to_string(deg));
  sig(hcomb(p.r.d.hash(), deg));
  sample(p.tag);
}

// any space: discrete solutions agree as functions
void solution(Rng& rng, u64 i) {
  Opts o;
  o.max_cells = thorough() ? 20 : 10;
  o.affine_only = rng.coin(0.6);
  const Pair p = make_pair_of_meshes(rng, o);
  const int deg = i % 2 ? rng.uni(1, 6) : 0;
  std::vector<unsigned> ce, cc;
  int pmax = 0;
  for (unsigned k = 0; k < p.ma->NumEntities(1); ++k) ce.push_back(deg ? deg : rng.uni(1, 5));
  for (unsigned k = 0; k < p.ma->NumEntities(0); ++k) cc.push_back(deg ? deg : rng.uni(1, 5));
  for (auto k : cc) pmax = std::max<int>(pmax, k);
  bool fit = true, wild = true;
  for (const Entity* c : p.ma->Entities(0)) {
    int dd = cc[p.ma->Index(*c)];
    for (const Entity* e : c->SubEntities(1)) dd = std::max<int>(dd, ce[p.ma->Index(*e)]);
    const bool s = symmetric_rule(c->RefEl().NumNodes(), 2 * dd);
    if (!affine_cell(*c) && !s) fit = false;
    if (!s) wild = false;
  }
  if (!fit) {
    event("unsuitable_rule");
    return;
  }
  auto space = [&](std::shared_ptr<const lf::mesh::Mesh> m, const std::vector<unsigned>& c, const std::vector<unsigned>& e) {
    const lf::mesh::Mesh* mp = m.get();
    return std::make_shared<const lf::fe::HierarchicScalarFESpace<double>>(m, [c, e, mp](const Entity& x) -> unsigned { return x.Codim() == 2 ? 1 : x.Codim() == 1 ? e[mp->Index(x)] : c[mp->Index(x)]; });
  };
  std::vector<unsigned> ce2(ce.size()), cc2(cc.size());
  for (std::size_t k = 0; k < ce.size(); ++k) ce2[p.edge[k]] = ce[k];
  for (std::size_t k = 0; k < cc.size(); ++k) cc2[p.r.cell[k]] = cc[k];
  const auto sa = space(p.ma, cc, ce), sb = space(p.mb, cc2, ce2);
  auto Pc = std::make_shared<PhysPoly>(rng, 1, p.a.P);
  const double dm = p.a.diam();
  auto fun = [Pc, wild](const VectorXd& x) { return wild ? 1.5 + 0.5 * std::sin((*Pc)(x)) : 1.5; };
  auto reac = [fun, dm](const VectorXd& x) { return fun(x) * 3 / dm / dm; };
  const MeshFunctionGlobal cf(fun);
  const MeshFunctionGlobal rf(reac);
  const bool dir = rng.coin();
  std::vector<bool> sel(p.ma->NumEntities(1), false), sel2 = sel;
  for (const Entity* e : p.ma->Entities(1))
    if (dir && rng.coin(0.4)) sel[p.ma->Index(*e)] = sel2[p.edge[p.ma->Index(*e)]] = true;
  struct Out {
    VectorXd x;
    double energy, rc;
  };
  auto solve = [&](auto sp, const std::vector<bool>& on) {
    const auto& dh = sp->LocGlobMap();
    const int N = dh.NumDofs();
    lf::assemble::COOMatrix<double> M(N, N);
    VectorXd f = VectorXd::Zero(N);
    lf::fe::DiffusionElementMatrixProvider de(sp, cf);
    lf::fe::MassElementMatrixProvider me(sp, rf);
    lf::fe::ScalarLoadElementVectorProvider ld(sp, cf);
    lf::assemble::AssembleMatrixLocally(0, dh, dh, de, M);
    lf::assemble::AssembleMatrixLocally(0, dh, dh, me, M);
    lf::assemble::AssembleVectorLocally(0, dh, ld, f);
    const lf::mesh::Mesh* mp = sp->Mesh().get();
    auto pred = [&on, mp](const Entity& e) { return bool(on[mp->Index(e)]); };
    const auto fix = lf::fe::InitEssentialConditionFromFunction(*sp, pred, MeshFunctionConstant<double>(1.0));
    lf::assemble::FixFlaggedSolutionComponents<double>([&](lf::assemble::glb_idx_t k) { return fix[k]; }, M, f);
    const auto S = M.makeSparse();
    Out r;
    r.rc = MatrixXd(S).partialPivLu().rcond();
    Eigen::SparseLU<Eigen::SparseMatrix<double>> lu(S);
    r.x = lu.solve(f);
    r.energy = f.dot(r.x);
    return r;
  };
  const Out a = solve(sa, sel), b = solve(sb, sel2);
  if (std::min(a.rc, b.rc) < 1e-9) {
    event("ill_conditioned");
    return;
  }
  MON_REQUIRE(a.x.size() == b.x.size(), "dof_count", p.tag);
  const lf::fe::MeshFunctionFE ua(sa, a.x), ub(sb, b.x);
  double mx = 1e-300;
  std::vector<std::pair<double, double>> vals;
  for (unsigned cd = 0; cd < 3; ++cd)
    for (const Entity* e : p.ma->Entities(cd)) {
      const Entity* f = image(p, *e);
      const MatrixXd x = cd == 2 ? MatrixXd(0, 1) : ref_points(rng, e->RefEl().NumNodes(), 2);
      const auto va = ua(*e, x), vb = ub(*f, image_points(p, *e, x));
      for (int k = 0; k < x.cols(); ++k) {
        vals.emplace_back(va[k], vb[k]);
        mx = std::max(mx, std::abs(va[k]));
      }
    }
  const double tol = 1e-13 / std::min(a.rc, b.rc) + 1e-10;
  for (auto [u, v] : vals) {
    note("solution_error_over_tol", std::abs(u - v) / (tol * mx));
    MON_CHECK(std::abs(u - v) <= tol * mx, "solution", p.tag << " " << sa->LocGlobMap().NumDofs() << " dofs " << u << " " << v << " rcond " << a.rc);
  }
  event(wild ? "solutions_variable" : "solutions_constant");
  if (dir) event("essential_solutions");
  sig(hcomb(p.r.d.hash(), hash_str(std::to_string(pmax))));
  sample(p.tag);
}
}  // namespace

void mon::register_all() {
  stream("U04", "geometry", 150, 4000, geometry_level);
  stream("U04", "lagrange", 120, 3000, lagrange);
  stream("U04", "solution", 120, 3000, solution);
  expect("U04", {"boundary_flags", "integrals", "refined", "operator", "load", "essential", "solution", "operators_variable", "solutions_variable", "essential_solutions", "degree_3"});
}
