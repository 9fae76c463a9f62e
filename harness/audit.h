// Incidence audit of any mesh through the Mesh/Entity interface only
#pragma once
#include "meshgen.h"

namespace gen {
using lf::mesh::Entity;
using lf::mesh::Mesh;

inline VectorXd node_pos(const Entity& p) { return p.Geometry()->Global(MatrixXd(0, 1)).col(0); }
inline MatrixXd corners_of(const Entity& e) {
  const auto pts = e.SubEntities(e.RefEl().Dimension());
  MatrixXd m(e.Geometry()->DimGlobal(), pts.size());
  for (std::size_t i = 0; i < pts.size(); ++i) m.col(i) = node_pos(*pts[i]);
  return m;
}

// complete: every node and edge must belong to a cell
inline void audit(const Mesh& m, bool complete = true) {
  using lf::mesh::Orientation;
  MON_REQUIRE(m.DimMesh() == 2, "inc.dim_mesh", "");
  std::vector<std::vector<const Entity*>> ent(3);
  for (unsigned cd = 0; cd <= 2; ++cd) {
    const auto sp = m.Entities(cd);
    const std::size_t n = m.NumEntities(cd);
    MON_REQUIRE(sp.size() == n, "inc.count", "codim " << cd << " list " << sp.size() << " NumEntities " << n);
    ent[cd].assign(n, nullptr);
    for (const Entity* e : sp) {
      MON_REQUIRE(e != nullptr, "inc.null", "");
      MON_REQUIRE(e->Codim() == cd, "inc.codim", "codim " << e->Codim() << " in list of " << cd);
      MON_REQUIRE(e->RefEl().Dimension() == 2 - cd, "inc.refel_dim", "");
      const auto ix = m.Index(*e);
      MON_REQUIRE(ix < n, "inc.index_range", "index " << ix << " of " << n);
      MON_REQUIRE(ent[cd][ix] == nullptr, "inc.index_unique", "codim " << cd << " index " << ix << " twice");
      ent[cd][ix] = e;
      // entity comparison is identity within one mesh
      MON_CHECK(*e == *e && !(*e != *e), "inc.entity_equal", "codim " << cd << " index " << ix);
      if (e != sp[0]) MON_CHECK(*e != *sp[0] && !(*sp[0] == *e), "inc.entity_distinct", "codim " << cd << " index " << ix);
      MON_CHECK(m.EntityByIndex(cd, ix) == e, "inc.by_index", "codim " << cd << " index " << ix);
      MON_CHECK(m.Contains(*e), "inc.contains", "codim " << cd << " index " << ix);
      MON_CHECK(e->Geometry() != nullptr && e->Geometry()->RefEl() == e->RefEl() &&
                    e->Geometry()->DimGlobal() == m.DimWorld() && e->Geometry()->DimLocal() == 2 - cd,
                "inc.geometry_type", "codim " << cd << " index " << ix);
    }
  }
  std::size_t nt = 0, nq = 0;
  for (auto* c : ent[0]) {
    if (c->RefEl() == RefEl::kTria()) ++nt;
    if (c->RefEl() == RefEl::kQuad()) ++nq;
  }
  MON_CHECK(m.NumEntities(RefEl::kTria()) == nt && m.NumEntities(RefEl::kQuad()) == nq &&
                nt + nq == ent[0].size() && m.NumEntities(RefEl::kSegment()) == ent[1].size() &&
                m.NumEntities(RefEl::kPoint()) == ent[2].size(),
            "inc.count_by_type", "trias " << nt << " quads " << nq);
  auto own = [&](const Entity* s, unsigned cd) {
    // the entity object listed must be the mesh's own entity
    if (s == nullptr || s->Codim() != cd) return false;
    const auto ix = m.Index(*s);
    return ix < ent[cd].size() && ent[cd][ix] == s;
  };
  std::vector<int> node_use(ent[2].size(), 0), edge_use(ent[1].size(), 0), node_edge(ent[2].size(), 0);
  std::map<Edge2, const Entity*> by_ends;
  for (auto* p : ent[2]) {
    const auto s = p->SubEntities(0);
    MON_CHECK(s.size() == 1 && s[0] == p, "inc.self", "point");
    MON_CHECK(p->RefEl() == RefEl::kPoint(), "inc.refel", "point");
  }
  for (auto* e : ent[1]) {
    const auto s = e->SubEntities(0), q = e->SubEntities(1);
    MON_CHECK(s.size() == 1 && s[0] == e, "inc.self", "edge");
    MON_REQUIRE(q.size() == 2, "inc.num_sub", "edge with " << q.size() << " end points");
    MON_REQUIRE(own(q[0], 2) && own(q[1], 2), "inc.sub_owned", "edge " << m.Index(*e));
    const int a = m.Index(*q[0]), b = m.Index(*q[1]);
    MON_REQUIRE(a != b, "inc.loop", "edge " << m.Index(*e) << " from " << a << " to itself");
    MON_CHECK(by_ends.emplace(ekey(a, b), e).second, "inc.duplicate_edge", "edges between " << a << " and " << b);
    node_edge[a]++;
    node_edge[b]++;
    const auto o = e->RelativeOrientations();
    MON_CHECK(o.size() == 2 && o[0] == Orientation::negative && o[1] == Orientation::positive,
              "inc.edge_end_orientation", "edge " << m.Index(*e));
  }
  for (auto* c : ent[0]) {
    const unsigned n = c->RefEl().NumNodes();
    const auto s = c->SubEntities(0), ed = c->SubEntities(1), nd = c->SubEntities(2);
    const auto o = c->RelativeOrientations();
    MON_CHECK(s.size() == 1 && s[0] == c, "inc.self", "cell");
    MON_REQUIRE(ed.size() == n && nd.size() == n && o.size() == n, "inc.num_sub",
                "cell " << m.Index(*c) << ": " << ed.size() << " edges " << nd.size() << " nodes");
    std::set<const Entity*> distinct;
    for (unsigned i = 0; i < n; ++i) {
      MON_REQUIRE(own(nd[i], 2) && own(ed[i], 1), "inc.sub_owned", "cell " << m.Index(*c));
      distinct.insert(nd[i]);
      distinct.insert(ed[i]);
      node_use[m.Index(*nd[i])]++;
      edge_use[m.Index(*ed[i])]++;
    }
    MON_CHECK(distinct.size() == 2 * n, "inc.distinct_sub", "cell " << m.Index(*c));
    for (unsigned i = 0; i < n; ++i) {
      const auto q = ed[i]->SubEntities(1);
      const Entity *p0 = nd[i], *p1 = nd[(i + 1) % n];
      const bool fwd = q[0] == p0 && q[1] == p1, bwd = q[0] == p1 && q[1] == p0;
      MON_REQUIRE(fwd || bwd, "inc.edge_joins_corners",
                  "cell " << m.Index(*c) << " edge " << i << " joins nodes " << m.Index(*q[0]) << ","
                          << m.Index(*q[1]) << " instead of " << m.Index(*p0) << "," << m.Index(*p1));
      MON_CHECK(o[i] == (fwd ? Orientation::positive : Orientation::negative), "inc.orientation",
                "cell " << m.Index(*c) << " edge " << i << (fwd ? " forward" : " backward") << " reported "
                        << lf::mesh::to_char(o[i]));
      MON_CHECK(lf::mesh::to_sign(o[i]) == (fwd ? 1 : -1) && lf::mesh::to_char(o[i]) == (fwd ? '+' : '-'),
                "inc.orientation_conv", "");
    }
  }
  if (complete) {
    for (std::size_t i = 0; i < node_use.size(); ++i)
      MON_CHECK(node_use[i] > 0, "inc.node_in_cell", "node " << i << " belongs to no cell");
    for (std::size_t i = 0; i < edge_use.size(); ++i)
      MON_CHECK(edge_use[i] > 0, "inc.edge_in_cell", "edge " << i << " belongs to no cell");
  }
}
}  // namespace gen
