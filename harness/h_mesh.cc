// M01 incidence, M02 factory fidelity, M03 boundary/adjacency/data sets,
// M04 structured builders
#include <lf/mesh/utils/utils.h>
#include <lf/mesh/test_utils/test_meshes.h>
#include <ipdg_stokes/mesh/annulus_triag_mesh_builder.h>

#include "audit.h"

using namespace gen;
namespace lmu = lf::mesh::utils;
using lf::mesh::hybrid2d::MeshFactory;

namespace {
std::string ms(const MatrixXd& m) { return mon::mstr(m); }

// ---- M01 -------------------------------------------------------------------
// incidence seen by the mesh equals the incidence of the description
void incidence_vs_desc(const Desc& d, const Mesh& m) {
  const auto ec = d.edge_cells();
  MON_REQUIRE(m.NumEntities(2) == d.np() && m.NumEntities(1) == ec.size() && m.NumEntities(0) == d.cells.size(),
              "inc.numbers", m.NumEntities(2) << "," << m.NumEntities(1) << "," << m.NumEntities(0) << " expected "
                                              << d.np() << "," << ec.size() << "," << d.cells.size());
  for (int c = 0; c < (int)d.cells.size(); ++c) {
    const Entity* e = m.EntityByIndex(0, c);
    const auto& v = d.cells[c].v;
    const auto nd = e->SubEntities(2), ed = e->SubEntities(1);
    MON_REQUIRE(nd.size() == v.size(), "inc.cell_type", "cell " << c);
    for (std::size_t i = 0; i < v.size(); ++i) {
      MON_CHECK((int)m.Index(*nd[i]) == v[i], "inc.cell_corner",
                "cell " << c << " corner " << i << " is node " << m.Index(*nd[i]) << " expected " << v[i]);
      // edges are joined by exactly the described cells: same entity in all
      const auto& cs = ec.at(ekey(v[i], v[(i + 1) % v.size()]));
      for (int c2 : cs) {
        const auto e2 = m.EntityByIndex(0, c2)->SubEntities(1);
        int hit = 0;
        for (auto* q : e2) hit += q == ed[i];
        MON_CHECK(hit == 1, "inc.shared_edge", "cells " << c << " and " << c2 << " do not share edge "
                                                        << m.Index(*ed[i]));
      }
    }
  }
}
std::vector<int> entity_numbers(const Mesh& m) {
  // full numeric description of the incidence structure
  std::vector<int> r{(int)m.NumEntities(0), (int)m.NumEntities(1), (int)m.NumEntities(2)};
  for (unsigned cd = 0; cd <= 1; ++cd)
    for (unsigned i = 0; i < m.NumEntities(cd); ++i) {
      const Entity* e = m.EntityByIndex(cd, i);
      for (unsigned s = 1; s <= 2 - cd; ++s)
        for (auto* q : e->SubEntities(s)) r.push_back(m.Index(*q));
      for (auto o : e->RelativeOrientations()) r.push_back(lf::mesh::to_sign(o));
    }
  return r;
}
void m01_case(mon::Rng& r, mon::u64) {
  Opts o;
  o.book = true;
  if (r.coin(0.1)) o.max_cells = mon::thorough() ? 400 : 120;
  const Desc d = random_desc(r, o);
  mon::sig(d.hash());
  auto m = build(d);
  audit(*m);
  incidence_vs_desc(d, *m);
  // entities of an independent twin mesh do not belong to this mesh
  auto m2 = build(d);
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (auto* e : m2->Entities(cd)) MON_CHECK(!m->Contains(*e), "inc.foreign", "codim " << cd);
  MON_CHECK(entity_numbers(*m) == entity_numbers(*m2), "inc.deterministic", "");
  // mesh moved around and outliving its factory
  std::shared_ptr<const Mesh> keep = m;
  m.reset();
  m2.reset();
  audit(*keep);
  mon::sample(describe(d));
}
// meshes that are not complete are refused or accepted as requested
void m01_incomplete(mon::Rng& r, mon::u64) {
  Opts o;
  o.max_cells = 10;
  o.dw = 2;
  Desc d = random_desc(r, o);
  const int what = r.uni(0, 1);
  mon::sig(mon::hcomb(d.hash(), what));
  MatrixXd Q(d.dw, d.np() + 1);
  Q << d.P, VectorXd::Constant(d.dw, 100 * d.diam());
  const int n = d.np();
  d.P = Q;
  if (what == 1) {
    SupEdge s;
    s.a = n;
    s.b = r.uni(0, n - 1);
    if (r.coin()) std::swap(s.a, s.b);
    d.edges.insert(d.edges.begin() + r.uni(0, (int)d.edges.size()), s);
  }
  mon::must_fail("inc.refuse_incomplete", what ? "edge without cell" : "node without cell", [&] {
    MeshFactory f(d.dw, true);
    feed(d, f);
    auto m = f.Build();
  });
  MeshFactory f(d.dw, false);
  feed(d, f);
  std::shared_ptr<Mesh> m;
  if (mon::no_throw("inc.accept_incomplete", [&] { m = f.Build(); })) audit(*m, false);
}

// ---- M02 -------------------------------------------------------------------
void curve_check(const Desc& d, const Mesh& m, const Entity& e, mon::Rng& r) {
  const int a = m.Index(*e.SubEntities(1)[0]), b = m.Index(*e.SubEntities(1)[1]);
  MatrixXd c(d.dw, 3);
  c << d.P.col(a), d.P.col(b), d.midpoint(a, b);
  MatrixXd x(1, 5);
  x << 0, 1, 0.5, r.real(), r.real();
  const MatrixXd g = e.Geometry()->Global(x), w = shape_global(2, 2, c, x);
  MON_CHECK(g.rows() == d.dw && (g - w).cwiseAbs().maxCoeff() <= 1e-12 * (d.diam() + d.P.cwiseAbs().maxCoeff()),
            "fac.edge_shape", "edge " << m.Index(e) << " from node " << a << " to " << b << " is " << ms(g)
                                      << " expected " << ms(w));
}
void fidelity(const Desc& d, const Mesh& m, mon::Rng& r) {
  const double tol = 1e-12 * (d.diam() + d.P.cwiseAbs().maxCoeff());
  const auto ec = d.edge_cells();
  MON_REQUIRE(m.NumEntities(2) == d.np() && m.NumEntities(1) == ec.size() && m.NumEntities(0) == d.cells.size(),
              "fac.numbers", m.NumEntities(2) << "," << m.NumEntities(1) << "," << m.NumEntities(0) << " expected "
                                              << d.np() << "," << ec.size() << "," << d.cells.size());
  MON_CHECK(m.DimWorld() == d.dw && m.DimMesh() == 2, "fac.dims", "");
  for (int i = 0; i < d.np(); ++i) {
    const VectorXd p = node_pos(*m.EntityByIndex(2, i));
    MON_CHECK(p.size() == d.dw && (p - d.P.col(i)).cwiseAbs().maxCoeff() == 0, "fac.node_position",
              "node " << i << " at " << ms(p) << " expected " << ms(d.P.col(i)));
  }
  for (int i = 0; i < (int)d.edges.size(); ++i) {
    const Entity* e = m.EntityByIndex(1, i);
    const int a = m.Index(*e->SubEntities(1)[0]), b = m.Index(*e->SubEntities(1)[1]);
    if (d.edges[i].geo != kOmitted) {
      MON_CHECK(a == d.edges[i].a && b == d.edges[i].b, "fac.supplied_edge",
                "edge " << i << " joins " << a << "," << b << " expected " << d.edges[i].a << "," << d.edges[i].b);
    } else {
      MON_CHECK(ekey(a, b) == ekey(d.edges[i].a, d.edges[i].b), "fac.supplied_edge_nogeo",
                "edge " << i << " joins " << a << "," << b << " expected " << d.edges[i].a << "," << d.edges[i].b);
    }
  }
  for (auto* e : m.Entities(1)) curve_check(d, m, *e, r);
  for (int c = 0; c < (int)d.cells.size(); ++c) {
    const Entity* e = m.EntityByIndex(0, c);
    const auto& v = d.cells[c].v;
    const int n = v.size();
    MON_REQUIRE(e->RefEl().NumNodes() == n, "fac.cell_type", "cell " << c);
    for (int i = 0; i < n; ++i)
      MON_CHECK((int)m.Index(*e->SubEntities(2)[i]) == v[i], "fac.cell_corner", "cell " << c << " corner " << i);
    const MatrixXd x = ref_points(r, n, 4);
    const MatrixXd g = e->Geometry()->Global(x), w = shape_global(n, d.cell_order(c), d.cell_coords(c), x);
    MON_CHECK((g - w).cwiseAbs().maxCoeff() <= tol, "fac.cell_shape",
              "cell " << c << " geo " << d.cells[c].geo << " maps to " << ms(g) << " expected " << ms(w));
    // edges coincide with the cell's side
    for (int i = 0; i < n; ++i) {
      const Entity* ed = e->SubEntities(1)[i];
      const bool fwd = (int)m.Index(*ed->SubEntities(1)[0]) == v[i];
      MatrixXd t(1, 4), s(2, 4);
      t << 0, 1, r.real(), r.real();
      for (int k = 0; k < 4; ++k) {
        const double u = fwd ? t(0, k) : 1 - t(0, k);
        if (n == 3) {
          s.col(k) = i == 0 ? Vector2d(u, 0) : i == 1 ? Vector2d(1 - u, u) : Vector2d(0, 1 - u);
        } else {
          s.col(k) = i == 0 ? Vector2d(u, 0) : i == 1 ? Vector2d(1, u) : i == 2 ? Vector2d(1 - u, 1) : Vector2d(0, 1 - u);
        }
      }
      const MatrixXd a = ed->Geometry()->Global(t), b = e->Geometry()->Global(s);
      MON_CHECK((a - b).cwiseAbs().maxCoeff() <= tol, "fac.edge_on_side",
                "cell " << c << " side " << i << ": edge " << ms(a) << " side " << ms(b));
    }
  }
}
struct Fed {
  std::vector<const lf::geometry::Geometry*> p, e, c;
};
Fed feed_ptr(const Desc& d, lf::mesh::MeshFactory& f, mon::Rng& r) {
  Fed q;
  for (int i = 0; i < d.np(); ++i) {
    unsigned id;
    if (r.coin()) {
      auto g = std::make_unique<lf::geometry::Point>(VectorXd(d.P.col(i)));
      q.p.push_back(g.get());
      id = f.AddPoint(std::move(g));
    } else {
      q.p.push_back(nullptr);
      id = f.AddPoint(VectorXd(d.P.col(i)));
    }
    MON_CHECK((int)id == i, "fac.point_index", "AddPoint returned " << id << " for point " << i);
  }
  // points, edges and cells may be added in any interleaving
  std::vector<int> order(d.edges.size() + d.cells.size());
  for (std::size_t i = 0; i < order.size(); ++i) order[i] = i < d.edges.size();
  r.shuffle(order);
  std::size_t ie = 0, ic = 0;
  for (int isedge : order) {
    if (isedge) {
      const auto& e = d.edges[ie];
      MatrixXd c(d.dw, e.geo == kO2 ? 3 : 2);
      c.col(0) = d.P.col(e.a);
      c.col(1) = d.P.col(e.b);
      if (e.geo == kO2) c.col(2) = d.midpoint(e.a, e.b);
      const std::array<unsigned, 2> nd{(unsigned)e.a, (unsigned)e.b};
      auto g = make_geo(2, e.geo, c);
      q.e.push_back(g.get());
      const auto id = f.AddEntity(RefEl::kSegment(), nd, std::move(g));
      MON_CHECK(id == ie, "fac.edge_index", "AddEntity returned " << id << " for edge " << ie);
      ++ie;
    } else {
      const auto& c = d.cells[ic];
      std::vector<unsigned> nd(c.v.begin(), c.v.end());
      auto g = make_geo((int)c.v.size(), c.geo, d.cell_coords((int)ic));
      q.c.push_back(g.get());
      const auto id = f.AddEntity(ref_of((int)c.v.size()), nd, std::move(g));
      MON_CHECK(id == ic, "fac.cell_index", "AddEntity returned " << id << " for cell " << ic);
      ++ic;
    }
  }
  return q;
}
void same_objects(const Fed& q, const Mesh& m) {
  for (unsigned i = 0; i < q.p.size(); ++i)
    if (q.p[i])
      MON_CHECK(m.EntityByIndex(2, i)->Geometry() == q.p[i], "fac.shape_object", "node " << i);
  for (unsigned i = 0; i < q.e.size(); ++i)
    if (q.e[i])
      MON_CHECK(m.EntityByIndex(1, i)->Geometry() == q.e[i], "fac.shape_object", "edge " << i);
  for (unsigned i = 0; i < q.c.size(); ++i)
    if (q.c[i])
      MON_CHECK(m.EntityByIndex(0, i)->Geometry() == q.c[i], "fac.shape_object", "cell " << i);
}
void m02_case(mon::Rng& r, mon::u64) {
  Opts o;
  o.book = true;
  o.max_cells = 24;
  const Desc d = random_desc(r, o);
  mon::sig(d.hash());
  MeshFactory f(d.dw);
  const Fed q = feed_ptr(d, f, r);
  auto m = f.Build();
  same_objects(q, *m);
  fidelity(d, *m, r);
  const auto e0 = entity_numbers(*m);
  // the factory is empty now and may build independent meshes
  Opts o2 = o;
  o2.dw = d.dw;
  const Desc d2 = random_desc(r, o2);
  const Fed q2 = feed_ptr(d2, f, r);
  {
    std::ostringstream ss;
    f.PrintLists(ss);
    MON_CHECK(ss.str().find(std::to_string(d2.cells.size()) + " cells") != std::string::npos, "fac.print_lists",
              ss.str().substr(0, 200));
  }
  auto m2 = f.Build();
  same_objects(q2, *m2);
  fidelity(d2, *m2, r);
  fidelity(d, *m, r);
  MON_CHECK(entity_numbers(*m) == e0, "fac.first_mesh_unchanged", "");
  m.reset();
  const Fed q3 = feed_ptr(d, f, r);
  auto m3 = f.Build();
  same_objects(q3, *m3);
  MON_CHECK(entity_numbers(*m3) == e0, "fac.rebuild_equal", "");
  mon::sample(describe(d));
}
void m02_bad(mon::Rng& r, mon::u64) {
  Opts o;
  o.max_cells = 8;
  const Desc d = random_desc(r, o);
  const int k = r.uni(0, 6);
  mon::sig(mon::hcomb(d.hash(), k));
  auto bad = [&](const char* what, auto&& fn) {
    mon::must_fail("fac.refuse_bad", what, [&] {
      MeshFactory f(d.dw);
      feed(d, f);
      fn(f);
      auto m = f.Build();
    });
  };
  const unsigned n = d.np();
  switch (k) {
    case 0: bad("cell with unknown node", [&](auto& f) { f.AddEntity(RefEl::kTria(), std::array<unsigned, 3>{0, 1, n}, nullptr); }); break;
    case 1: bad("edge with unknown node", [&](auto& f) { f.AddEntity(RefEl::kSegment(), std::array<unsigned, 2>{0, n}, nullptr); }); break;
    case 2: bad("too few nodes", [&](auto& f) { f.AddEntity(RefEl::kTria(), std::array<unsigned, 2>{0, 1}, nullptr); }); break;
    case 3: bad("too many nodes", [&](auto& f) { f.AddEntity(RefEl::kTria(), std::array<unsigned, 4>{0, 1, 2, 0}, nullptr); }); break;
    case 4: bad("point coordinates of wrong dimension", [&](auto& f) { f.AddPoint(VectorXd::Zero(d.dw + 1)); }); break;
    case 5: {
      const auto& v = d.cells[0].v;
      bad("shape of wrong type", [&](auto& f) {
        std::vector<unsigned> nd(v.begin(), v.end());
        MatrixXd c(d.dw, 2);
        c << d.P.col(v[0]), d.P.col(v[1]);
        f.AddEntity(ref_of(v.size()), nd, std::make_unique<lf::geometry::SegmentO1>(c));
      });
      break;
    }
    case 6: {
      const auto& v = d.cells[0].v;
      bad("duplicate edge", [&](auto& f) {
        MatrixXd c(d.dw, 2);
        c << d.P.col(v[0]), d.P.col(v[1]);
        const std::array<unsigned, 2> nd{(unsigned)v[0], (unsigned)v[1]}, dn{(unsigned)v[1], (unsigned)v[0]};
        f.AddEntity(RefEl::kSegment(), nd, std::make_unique<lf::geometry::SegmentO1>(c));
        c.col(0).swap(c.col(1));
        f.AddEntity(RefEl::kSegment(), dn, std::make_unique<lf::geometry::SegmentO1>(c));
      });
      break;
    }
  }
}

// ---- M03 -------------------------------------------------------------------
template <class T, class G>
void data_set_case(const std::shared_ptr<const Mesh>& m, const Mesh& other, mon::Rng& r, G&& gen, const T& init) {
  const unsigned cd = r.uni(0, 2);
  {
    auto s = r.coin() ? lmu::make_CodimMeshDataSet<T>(m, cd, init)
                      : std::make_shared<lmu::CodimMeshDataSet<T>>(m, cd, init);
    const lmu::CodimMeshDataSet<T>& cs = *s;
    const lmu::MeshDataSet<T>& base = *s;
    for (auto* e : m->Entities(cd)) MON_CHECK(cs(*e) == init, "set.init", "");
    std::vector<T> ref(m->NumEntities(cd), init);
    for (int k = 0; k < 3 * (int)ref.size() / 2; ++k) {
      const int i = r.uni(0, (int)ref.size() - 1);
      const T v = gen();
      ref[i] = v;
      (*s)(*m->EntityByIndex(cd, i)) = v;
    }
    for (unsigned i = 0; i < ref.size(); ++i) {
      const Entity& e = *m->EntityByIndex(cd, i);
      MON_CHECK(cs(e) == ref[i] && base(e) == ref[i], "set.value", "codim " << cd << " entity " << i);
      MON_CHECK(base.DefinedOn(e), "set.defined", "");
    }
    for (unsigned c2 = 0; c2 <= 2; ++c2) {
      if (c2 != cd)
        for (auto* e : m->Entities(c2)) MON_CHECK(!base.DefinedOn(*e), "set.undefined_codim", "");
      for (auto* e : other.Entities(c2)) MON_CHECK(!base.DefinedOn(*e), "set.undefined_foreign", "");
    }
    // copies are independent
    lmu::CodimMeshDataSet<T> cp(*s);
    const T v = gen();
    (*s)(*m->EntityByIndex(cd, 0)) = v;
    MON_CHECK(cp(*m->EntityByIndex(cd, 0)) == ref[0] && cs(*m->EntityByIndex(cd, 0)) == v, "set.copy", "");
  }
  {
    auto s = r.coin() ? lmu::make_AllCodimMeshDataSet<T>(m, init)
                      : std::make_shared<lmu::AllCodimMeshDataSet<T>>(m, init);
    const lmu::MeshDataSet<T>& base = *s;
    std::vector<std::vector<T>> ref(3);
    for (unsigned c2 = 0; c2 <= 2; ++c2) {
      ref[c2].assign(m->NumEntities(c2), init);
      for (auto* e : m->Entities(c2)) MON_CHECK(base(*e) == init, "set.init", "");
    }
    for (int k = 0; k < 100; ++k) {
      const int c2 = r.uni(0, 2), i = r.uni(0, (int)ref[c2].size() - 1);
      const T v = gen();
      ref[c2][i] = v;
      (*s)(*m->EntityByIndex(c2, i)) = v;
    }
    for (unsigned c2 = 0; c2 <= 2; ++c2) {
      for (unsigned i = 0; i < ref[c2].size(); ++i) {
        const Entity& e = *m->EntityByIndex(c2, i);
        MON_CHECK(base(e) == ref[c2][i], "set.value", "codim " << c2 << " entity " << i);
        MON_CHECK(base.DefinedOn(e), "set.defined", "");
      }
      for (auto* e : other.Entities(c2)) MON_CHECK(!base.DefinedOn(*e), "set.undefined_foreign", "");
    }
    lmu::AllCodimMeshDataSet<T> mv(std::move(*s));
    for (unsigned c2 = 0; c2 <= 2; ++c2)
      for (unsigned i = 0; i < ref[c2].size(); ++i)
        MON_CHECK(mv(*m->EntityByIndex(c2, i)) == ref[c2][i], "set.moved", "");
  }
}
void m03_case(mon::Rng& r, mon::u64) {
  Opts o;
  o.book = true;
  const Desc d = random_desc(r, o);
  mon::sig(d.hash());
  std::shared_ptr<Mesh> m = build(d);
  // truth by node numbers of the description
  const auto ec = d.edge_cells();
  std::set<Edge2> bde;
  std::set<int> bdn;
  std::map<int, int> node_edges, node_cells;
  for (auto& [e, cs] : ec) {
    node_edges[e.first]++;
    node_edges[e.second]++;
    if (cs.size() == 1) {
      bde.insert(e);
      bdn.insert(e.first);
      bdn.insert(e.second);
    }
  }
  for (auto& c : d.cells)
    for (int v : c.v) node_cells[v]++;
  auto key = [&](const Entity& e) {
    return ekey(m->Index(*e.SubEntities(1)[0]), m->Index(*e.SubEntities(1)[1]));
  };
  const auto all = lmu::flagEntitiesOnBoundary(m);
  const auto b1 = lmu::flagEntitiesOnBoundary(m, 1), b2 = lmu::flagEntitiesOnBoundary(m, 2);
  for (auto* c : m->Entities(0)) MON_CHECK(!all(*c), "bd.cell", "cell " << m->Index(*c) << " flagged");
  for (auto* e : m->Entities(1)) {
    const bool t = bde.count(key(*e));
    MON_CHECK(all(*e) == t && b1(*e) == t, "bd.edge", "edge " << m->Index(*e) << " with " << ec.at(key(*e)).size()
                                                            << " cells: flags " << all(*e) << b1(*e));
    MON_CHECK(b1.DefinedOn(*e) && !b2.DefinedOn(*e) && all.DefinedOn(*e), "bd.defined", "");
  }
  for (auto* p : m->Entities(2)) {
    const bool t = bdn.count(m->Index(*p));
    MON_CHECK(all(*p) == t && b2(*p) == t, "bd.node", "node " << m->Index(*p) << " flags " << all(*p) << b2(*p)
                                                            << " expected " << t);
    MON_CHECK(!b1.DefinedOn(*p) && b2.DefinedOn(*p), "bd.defined", "");
  }
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (unsigned rel = 0; rel <= cd; ++rel) {
      const auto cnt = lmu::CountNumSuperEntities(m, cd, rel);
      for (auto* e : m->Entities(cd)) {
        int t = 1;
        if (cd == 1 && rel == 1) t = ec.at(key(*e)).size();
        if (cd == 2 && rel == 1) t = node_edges[m->Index(*e)];
        if (cd == 2 && rel == 2) t = node_cells[m->Index(*e)];
        MON_CHECK((int)cnt(*e) == t, "bd.count", "codim " << cd << " rel " << rel << " entity " << m->Index(*e)
                                                        << " count " << cnt(*e) << " expected " << t);
      }
      for (unsigned c2 = 0; c2 <= 2; ++c2)
        MON_CHECK(cnt.DefinedOn(*m->EntityByIndex(c2, 0)) == (c2 == cd), "bd.defined", "");
    }
  // data sets
  auto other = build(d);
  switch (r.uni(0, 4)) {
    case 0: data_set_case<int>(m, *other, r, [&] { return r.uni(-1000, 1000); }, r.uni(0, 99)); break;
    case 1: data_set_case<bool>(m, *other, r, [&] { return r.coin(); }, r.coin()); break;
    case 2: data_set_case<double>(m, *other, r, [&] { return r.real(); }, r.real()); break;
    case 3: data_set_case<std::string>(m, *other, r, [&] { return std::string(r.uni(0, 40), 'x'); }, std::string("init")); break;
    case 4: data_set_case<Eigen::Vector3d>(m, *other, r, [&] { return Eigen::Vector3d(r.real(), 1, 2); }, Eigen::Vector3d(0, 0, 1)); break;
  }
  // data sets keep their mesh alive
  auto ds = lmu::make_CodimMeshDataSet<int>(m, 1, 7);
  const Entity* e = m->EntityByIndex(1, 0);
  auto fl = lmu::make_AllCodimMeshDataSet<bool>(m, true);
  m.reset();
  MON_CHECK((*ds)(*e) == 7 && (*fl)(*e), "set.keeps_mesh", "");
  mon::sample(describe(d) + " boundary edges " + std::to_string(bde.size()));
}

// ---- M04 -------------------------------------------------------------------
template <class B>
std::shared_ptr<Mesh> run_builder(mon::Rng& r, unsigned dw, Vector2d lo, Vector2d hi, int nx, int ny, bool twice) {
  B b(std::make_unique<MeshFactory>(dw));
  if (r.coin()) {
    b.setBottomLeftCorner(lo);
    b.setTopRightCorner(Vector2d(hi));
  } else {
    b.setBottomLeftCorner(lo(0), lo(1)).setTopRightCorner(hi(0), hi(1));
  }
  b.setNumXCells(nx).setNumYCells(ny);
  std::shared_ptr<Mesh> m = b.Build();
  if (twice) m = b.Build();  // builders may be used repeatedly
  return m;
}
// the catalogue of small hybrid meshes
void m04_catalogue(mon::Rng& r, mon::u64 index) {
  const int sel = index % 9;
  const double sc = index < 9 ? 1.0 : std::pow(10.0, r.real(-3, 3));
  const auto m = index < 9 && r.coin() ? lf::mesh::test_utils::GenerateHybrid2DTestMesh(sel) : lf::mesh::test_utils::GenerateHybrid2DTestMesh(sel, sc);
  const auto b = lf::mesh::test_utils::GenerateHybrid2DTestMesh(sel);
  MON_REQUIRE(m && b && m != b, "cat.built", sel);
  audit(*m);
  for (unsigned cd = 0; cd < 3; ++cd) MON_REQUIRE(m->NumEntities(cd) == b->NumEntities(cd), "cat.same_topology", sel << " codim " << cd);
  double area = 0;
  Vector2d lo(1e300, 1e300), hi(-1e300, -1e300);
  for (auto* p : m->Entities(2)) {
    const VectorXd x = node_pos(*p), y = node_pos(*b->EntityByIndex(2, m->Index(*p)));
    MON_CHECK((x - sc * y).cwiseAbs().maxCoeff() <= 1e-14 * sc * 4, "cat.scaled", sel << " scale " << sc << " node " << m->Index(*p) << " at " << ms(x));
    lo = lo.cwiseMin(x), hi = hi.cwiseMax(x);
  }
  std::map<std::pair<int, int>, int> side;
  for (auto* c : m->Entities(0)) {
    const MatrixXd X = corners_of(*c);
    const int n = X.cols();
    const MatrixXd g = c->Geometry()->Global(c->RefEl().NodeCoords());
    std::vector<int> id(n);
    for (int k = 0; k < n; ++k) id[k] = k;
    const double a = poly_area(X, id);
    // the shape of the unit scale although the nodes are scaled
    const bool unscaled = std::abs(sc - 1) > 1e-9 && (g * sc - X).norm() <= 1e-13 * sc * 4;
    MON_CHECK(!unscaled, ("cat.shape_not_scaled_" + std::to_string(sel)).c_str(), sel << " scale " << sc << " cell " << m->Index(*c) << ": nodes " << ms(X) << " shape " << ms(g));
    MON_CHECK(std::abs(a) > 1e-3 * sc * sc, "cat.cell_area", sel << " cell " << m->Index(*c) << " area " << a);
    for (int k = 0; k < n; ++k) {
      if (!unscaled) MON_CHECK((g.col(k) - X.col(k)).norm() <= 1e-13 * sc, "cat.cell_corner", sel << " cell " << m->Index(*c));
      const Vector2d u = X.col((k + 1) % n) - X.col(k), w = X.col((k + 2) % n) - X.col((k + 1) % n);
      MON_CHECK((u(0) * w(1) - u(1) * w(0)) * a > 0, "cat.cell_convex", sel << " cell " << m->Index(*c));
      const int p = m->Index(*c->SubEntities(2)[k]), q = m->Index(*c->SubEntities(2)[(k + 1) % n]);
      // the side of the edge on which the cell lies
      side[{std::min(p, q), std::max(p, q)}] += (p < q) == (a > 0) ? 1 : 10;
    }
    if (!unscaled) MON_CHECK(std::abs(lf::geometry::Volume(*c->Geometry()) - std::abs(a)) <= 1e-12 * sc * sc, "cat.cell_volume", sel << " cell " << m->Index(*c));
    area += std::abs(a);
    const bool quad = n == 4;
    if (sel == 3) MON_CHECK(!quad, "cat.only_triangles", "");
    if (sel == 5) MON_CHECK(c->Geometry()->isAffine(), "cat.affine", "cell " << m->Index(*c));
    if (sel == 8 && quad) MON_CHECK(c->Geometry()->isAffine() && std::abs((X.col(1) - X.col(0)).dot(X.col(3) - X.col(0))) <= 1e-12 * sc * sc, "cat.rectangle", "cell " << m->Index(*c));
  }
  // cells on opposite sides of shared edges
  for (auto& [e, k] : side) MON_CHECK(k == 1 || k == 10 || k == 11, "cat.overlap", sel << " edge " << e.first << "," << e.second);
  if (sel == 0 || sel == 5 || sel == 8) {
    MON_CHECK(lo.cwiseAbs().maxCoeff() <= 1e-14 * sc && (hi.array() - 3 * sc).abs().maxCoeff() <= 1e-13 * sc, "cat.extent", sel << " " << ms(lo) << " " << ms(hi));
    MON_CHECK(std::abs(area - 9 * sc * sc) <= 1e-12 * sc * sc, "cat.area", sel << " area " << area);
  }
  if (sel == 7) MON_CHECK(m->NumEntities(RefEl::kTria()) == 1 && m->NumEntities(RefEl::kQuad()) == 1, "cat.pair", "");
  mon::event("catalogue_" + std::to_string(sel));
  mon::sig(mon::hcomb(sel, (mon::u64)(sc * 1e6)));
}
void m04_tp(mon::Rng& r, mon::u64 index) {
  const bool tria = r.coin();
  int nx, ny;
  if (index < 32) {
    nx = 1 + index / 8 % 4;
    ny = 1 + (index / 2) % 4;
  } else {
    nx = r.coin(0.3) ? 1 : r.uni(1, mon::thorough() ? 60 : 14);
    ny = r.coin(0.3) ? 1 : r.uni(1, mon::thorough() ? 60 : 14);
  }
  const double sc = r.coin(0.5) ? 1.0 : std::pow(10.0, r.real(-5, 5));
  Vector2d lo, hi;
  if (r.coin(0.2)) {
    lo << 0, 0;
    hi << 1, 1;
  } else {
    lo << sc * r.real(-3, 3), sc * r.real(-3, 3);
    hi = lo + Vector2d(sc * r.real(0.1, 3), sc * (r.coin(0.2) ? 1e-3 : 1.0) * r.real(0.1, 3));
    // cells with an aspect ratio beyond 1e4 are refused as degenerate
    for (int k = 0; k < 2; ++k) {
      const double h0 = (hi(0) - lo(0)) / nx, h1 = (hi(1) - lo(1)) / ny;
      if (h0 < 1e-3 * h1) hi(0) = lo(0) + 2e-3 * h1 * nx;
      if (h1 < 1e-3 * h0) hi(1) = lo(1) + 2e-3 * h0 * ny;
    }
  }
  mon::sig(mon::hcomb(mon::hcomb(nx, ny), tria));
  std::shared_ptr<Mesh> m = tria ? run_builder<lmu::TPTriagMeshBuilder>(r, 2, lo, hi, nx, ny, r.coin(0.2))
                                 : run_builder<lmu::TPQuadMeshBuilder>(r, 2, lo, hi, nx, ny, r.coin(0.2));
  MON_REQUIRE(m != nullptr, "tp.built", nx << "x" << ny);
  audit(*m);
  const Vector2d sz = hi - lo;
  const double tol = 1e-14 * (lo.cwiseAbs().maxCoeff() + hi.cwiseAbs().maxCoeff());
  MON_CHECK((int)m->NumEntities(0) == (tria ? 2 : 1) * nx * ny &&
                (int)m->NumEntities(1) == (nx + 1) * ny + nx * (ny + 1) + (tria ? nx * ny : 0) &&
                (int)m->NumEntities(2) == (nx + 1) * (ny + 1),
            "tp.counts", nx << "x" << ny << ": " << m->NumEntities(0) << " " << m->NumEntities(1) << " "
                            << m->NumEntities(2));
  // nodes <-> grid positions
  std::vector<int> gi(m->NumEntities(2)), gj(m->NumEntities(2));
  std::set<std::pair<int, int>> seen;
  for (auto* p : m->Entities(2)) {
    const VectorXd x = node_pos(*p);
    const int i = (int)std::lround((x(0) - lo(0)) / sz(0) * nx), j = (int)std::lround((x(1) - lo(1)) / sz(1) * ny);
    const Vector2d w(lo(0) + sz(0) * i / nx, lo(1) + sz(1) * j / ny);
    MON_REQUIRE(i >= 0 && i <= nx && j >= 0 && j <= ny && (x - w).cwiseAbs().maxCoeff() <= tol, "tp.node_on_grid",
                "node " << m->Index(*p) << " at " << ms(x) << " nearest grid point " << ms(w));
    MON_CHECK(seen.insert({i, j}).second, "tp.node_unique", i << "," << j);
    MON_CHECK((int)m->Index(*p) == i + (nx + 1) * j, "tp.node_number", m->Index(*p) << " at " << i << "," << j);
    gi[m->Index(*p)] = i;
    gj[m->Index(*p)] = j;
  }
  double area = 0;
  std::map<std::pair<int, int>, double> cover;
  for (auto* c : m->Entities(0)) {
    MON_REQUIRE(c->RefEl() == (tria ? RefEl::kTria() : RefEl::kQuad()), "tp.cell_type", "");
    const MatrixXd X = corners_of(*c);
    std::vector<int> id(X.cols());
    int i0 = 1 << 30, j0 = 1 << 30, i1 = -1, j1 = -1;
    double ga = 0;
    for (int k = 0; k < X.cols(); ++k) {
      id[k] = k;
      const int v = m->Index(*c->SubEntities(2)[k]), u = m->Index(*c->SubEntities(2)[(k + 1) % X.cols()]);
      i0 = std::min(i0, gi[v]);
      i1 = std::max(i1, gi[v]);
      j0 = std::min(j0, gj[v]);
      j1 = std::max(j1, gj[v]);
      ga += 0.5 * (gi[v] * gj[u] - gj[v] * gi[u]);
    }
    MON_CHECK(i1 - i0 == 1 && j1 - j0 == 1, "tp.cell_in_box", "cell " << m->Index(*c));
    MON_CHECK(ga == (tria ? 0.5 : 1.0), "tp.cell_orientation", "cell " << m->Index(*c) << " grid area " << ga);
    cover[{i0, j0}] += ga;
    const double a = poly_area(X, id);
    area += a;
    MON_CHECK(std::abs(lf::geometry::Volume(*c->Geometry()) - a) <= 1e-10 * (a + 1e-4 * std::pow(tol * 1e14, 2)),
              "tp.cell_volume", "");
    const MatrixXd g = c->Geometry()->Global(c->RefEl().NodeCoords());
    MON_CHECK((g - X).cwiseAbs().maxCoeff() <= tol, "tp.cell_shape", "cell " << m->Index(*c) << ms(g) << ms(X));
  }
  for (auto& [b, a] : cover) MON_CHECK(a == 1.0, "tp.cover", "box covered " << a);
  MON_CHECK((int)cover.size() == nx * ny, "tp.cover_all", "");
  for (auto* e : m->Entities(1)) {
    const MatrixXd g = e->Geometry()->Global(e->RefEl().NodeCoords());
    MON_CHECK((g - corners_of(*e)).cwiseAbs().maxCoeff() <= tol, "tp.edge_shape", "edge " << m->Index(*e));
    if (tria) {
      const int a = m->Index(*e->SubEntities(1)[0]), b = m->Index(*e->SubEntities(1)[1]);
      const int kind = gj[a] == gj[b] ? 0 : gi[a] == gi[b] ? 1 : 2;  // horizontal, vertical, diagonal
      const int ix = m->Index(*e), nh = nx * (ny + 1), nv = (nx + 1) * ny;
      MON_CHECK(kind == (ix < nh ? 0 : ix < nh + nv ? 1 : 2), "tp.edge_number", "edge " << ix << " kind " << kind);
    }
  }
  const auto bd = lmu::flagEntitiesOnBoundary(m);
  int nb = 0;
  for (auto* e : m->Entities(1)) nb += bd(*e);
  MON_CHECK(nb == 2 * (nx + ny), "tp.boundary_edges", nb);
  for (auto* p : m->Entities(2)) {
    const int i = gi[m->Index(*p)], j = gj[m->Index(*p)];
    MON_CHECK(bd(*p) == (i == 0 || i == nx || j == 0 || j == ny), "tp.boundary_node", i << "," << j);
  }
  mon::sample(std::string(tria ? "tria " : "quad ") + std::to_string(nx) + "x" + std::to_string(ny));
}
void m04_empty(mon::Rng& r, mon::u64) {
  const int k = r.uni(0, 3);
  Vector2d lo(r.real(-1, 0), r.real(-1, 0)), hi(r.real(1, 2), r.real(1, 2));
  int nx = r.uni(3, 5), ny = r.uni(3, 5);
  if (k == 0) nx = 0;
  if (k == 1) ny = 0;
  if (k == 2) std::swap(lo(0), hi(0));
  if (k == 3) hi(1) = lo(1);
  const int b = r.uni(0, 2);
  mon::sig(k * 4 + b);
  std::shared_ptr<Mesh> m;
  mon::no_throw("tp.empty_ok", [&] {
    m = b == 0   ? run_builder<lmu::TPTriagMeshBuilder>(r, 2, lo, hi, nx, ny, false)
        : b == 1 ? run_builder<lmu::TPQuadMeshBuilder>(r, 2, lo, hi, nx, ny, false)
                 : run_builder<lmu::TorusMeshBuilder>(r, 3, lo, hi, nx, ny, false);
  });
  MON_CHECK(m == nullptr, "tp.empty", "builder " << b << " case " << k);
}
void m04_torus(mon::Rng& r, mon::u64) {
  const int nx = r.uni(3, mon::thorough() ? 30 : 9), ny = r.uni(3, mon::thorough() ? 30 : 9);
  const double sc = std::pow(10.0, r.real(-2, 2));
  const Vector2d lo(r.real(-1, 1), r.real(-1, 1)), sz(sc * r.real(0.2, 1), sc * r.real(1.2, 3));
  mon::sig(mon::hcomb(nx, ny));
  std::shared_ptr<Mesh> m = run_builder<lmu::TorusMeshBuilder>(r, 3, lo, lo + sz, nx, ny, r.coin(0.2));
  MON_REQUIRE(m != nullptr, "torus.built", "");
  audit(*m);
  MON_CHECK((int)m->NumEntities(0) == nx * ny && (int)m->NumEntities(1) == 2 * nx * ny &&
                (int)m->NumEntities(2) == nx * ny,
            "torus.counts", nx << "x" << ny << ": " << m->NumEntities(0) << " " << m->NumEntities(1));
  const auto cnt = lmu::CountNumSuperEntities(m, 1, 1);
  for (auto* e : m->Entities(1)) MON_CHECK(cnt(*e) == 2, "torus.closed", "edge with " << cnt(*e) << " cells");
  const auto cn = lmu::CountNumSuperEntities(m, 2, 2);
  for (auto* e : m->Entities(2)) MON_CHECK(cn(*e) == 4, "torus.valence", cn(*e));
  const double r0 = sz(0) / (2 * M_PI), R0 = sz(1) / (2 * M_PI), tol = 1e-10 * (r0 + R0 + lo.norm());
  std::map<int, std::pair<int, int>> pos;
  std::set<std::pair<int, int>> seen;
  for (auto* p : m->Entities(2)) {
    const VectorXd x = node_pos(*p);
    const double rho = std::hypot(x(0), x(1));
    MON_CHECK(std::abs(std::hypot(rho - R0, x(2)) - r0) <= tol, "torus.on_surface", ms(x));
    const int j = ((int)std::lround(std::atan2(x(1), x(0)) / (2 * M_PI) * ny) + ny) % ny;
    const int i = ((int)std::lround(std::atan2(x(2), rho - R0) / (2 * M_PI) * nx) + nx) % nx;
    const double th = 2 * M_PI * i / nx, ph = 2 * M_PI * j / ny;
    Eigen::Vector3d w((R0 + r0 * std::cos(th)) * std::cos(ph), (R0 + r0 * std::cos(th)) * std::sin(ph),
                      r0 * std::sin(th));
    MON_CHECK((x - w).cwiseAbs().maxCoeff() <= tol, "torus.position", ms(x) << " expected " << ms(w));
    MON_CHECK(seen.insert({i, j}).second, "torus.node_unique", "");
    pos[m->Index(*p)] = {i, j};
  }
  auto dist = [](int a, int b, int n) {
    const int k = ((a - b) % n + n) % n;
    return std::min(k, n - k);
  };
  for (auto* c : m->Entities(0)) {
    const auto v = c->SubEntities(2);
    for (int k = 0; k < 4; ++k) {
      auto a = pos[m->Index(*v[k])], b = pos[m->Index(*v[(k + 1) % 4])], o = pos[m->Index(*v[(k + 2) % 4])];
      MON_CHECK(dist(a.first, b.first, nx) + dist(a.second, b.second, ny) == 1, "torus.cell_sides", "");
      MON_CHECK(dist(a.first, o.first, nx) == 1 && dist(a.second, o.second, ny) == 1, "torus.cell_diagonal", "");
    }
    const MatrixXd g = c->Geometry()->Global(c->RefEl().NodeCoords());
    MON_CHECK((g - corners_of(*c)).cwiseAbs().maxCoeff() <= tol, "torus.cell_shape", "");
  }
  for (auto* e : m->Entities(1)) {
    const MatrixXd g = e->Geometry()->Global(e->RefEl().NodeCoords());
    MON_CHECK((g - corners_of(*e)).cwiseAbs().maxCoeff() <= tol, "torus.edge_shape", "");
  }
  mon::sample("torus " + std::to_string(nx) + "x" + std::to_string(ny));
}
void m04_annulus(mon::Rng& r, mon::u64) {
  const int nr = r.uni(1, mon::thorough() ? 20 : 7), na = r.uni(3, mon::thorough() ? 40 : 14);
  double ri = 0.25, ro = 1.0, cx = 0, cy = 0;
  projects::ipdg_stokes::mesh::AnnulusTriagMeshBuilder b(std::make_unique<MeshFactory>(2));
  const double sc = std::pow(10.0, r.real(-2, 2));
  if (r.coin(0.7)) b.setInnerRadius(ri = sc * r.real(0.1, 0.9)), b.setOuterRadius(ro = ri + sc * r.real(0.1, 2));
  if (r.coin(0.7)) b.setCenterPoint(cx = sc * r.real(-5, 5), cy = sc * r.real(-5, 5));
  b.setNumRadialCells(nr);
  b.setNumAngularCells(na);
  mon::sig(mon::hcomb(nr, na));
  std::shared_ptr<Mesh> m = b.Build();
  if (r.coin(0.2)) m = b.Build();
  MON_REQUIRE(m != nullptr, "annulus.built", "");
  audit(*m);
  MON_CHECK((int)m->NumEntities(0) == 2 * nr * na && (int)m->NumEntities(2) == na * (nr + 1) &&
                (int)m->NumEntities(1) == na * (nr + 1) + 2 * na * nr,
            "annulus.counts", nr << "," << na << ": " << m->NumEntities(0));
  const double tol = 1e-11 * (ro + std::abs(cx) + std::abs(cy));
  std::set<std::pair<int, int>> seen;
  std::map<int, std::pair<int, int>> pos;
  for (auto* p : m->Entities(2)) {
    const VectorXd x = node_pos(*p);
    const double rho = std::hypot(x(0) - cx, x(1) - cy);
    const int i = (int)std::lround((rho - ri) / (ro - ri) * nr);
    const int j = ((int)std::lround(std::atan2(x(1) - cy, x(0) - cx) / (2 * M_PI) * na) + na) % na;
    const double w = ri + (ro - ri) * i / nr, ph = 2 * M_PI * j / na;
    MON_REQUIRE(i >= 0 && i <= nr && std::hypot(x(0) - cx - w * std::cos(ph), x(1) - cy - w * std::sin(ph)) <= tol,
                "annulus.position", ms(x) << " centre " << cx << "," << cy << " radii " << ri << "," << ro);
    MON_CHECK(seen.insert({i, j}).second, "annulus.node_unique", "");
    pos[m->Index(*p)] = {i, j};
  }
  double area = 0;
  for (auto* c : m->Entities(0)) {
    const MatrixXd X = corners_of(*c);
    const double a = poly_area(X, {0, 1, 2});
    MON_CHECK(a > 0, "annulus.orientation", "area " << a);
    area += a;
    const MatrixXd g = c->Geometry()->Global(c->RefEl().NodeCoords());
    MON_CHECK((g - X).cwiseAbs().maxCoeff() <= tol, "annulus.cell_shape", "");
    int i0 = nr, i1 = 0;
    for (auto* v : c->SubEntities(2)) i0 = std::min(i0, pos[m->Index(*v)].first), i1 = std::max(i1, pos[m->Index(*v)].first);
    MON_CHECK(i1 - i0 == 1, "annulus.cell_layer", "");
  }
  MON_CHECK(std::abs(area - 0.5 * na * std::sin(2 * M_PI / na) * (ro * ro - ri * ri)) <=
                1e-10 * (ro * ro + cx * cx + cy * cy),
            "annulus.area", area);
  const auto bd = lmu::flagEntitiesOnBoundary(m);
  for (auto* e : m->Entities(1)) {
    const auto a = pos[m->Index(*e->SubEntities(1)[0])], q = pos[m->Index(*e->SubEntities(1)[1])];
    const bool t = a.first == q.first && (a.first == 0 || a.first == nr);
    MON_CHECK(bd(*e) == t, "annulus.boundary", "");
  }
  mon::sample("annulus " + std::to_string(nr) + "x" + std::to_string(na));
}
}  // namespace

void mon::register_all() {
  stream("M01", "meshes", 500, 12000, m01_case);
  stream("M01", "incomplete", 60, 500, m01_incomplete);
  stream("M02", "fidelity", 260, 6000, m02_case);
  stream("M02", "refused", 60, 600, m02_bad);
  stream("M03", "flags", 300, 6000, m03_case);
  stream("M04", "rectangle", 200, 2000, m04_tp);
  stream("M04", "torus", 60, 600, m04_torus);
  stream("M04", "annulus", 80, 800, m04_annulus);
  stream("M04", "catalogue", 72, 400, m04_catalogue);
  mon::expect("M04", {"catalogue_0", "catalogue_1", "catalogue_2", "catalogue_3", "catalogue_4", "catalogue_5", "catalogue_6", "catalogue_7", "catalogue_8"});
  stream("M04", "empty", 24, 100, m04_empty);
}
