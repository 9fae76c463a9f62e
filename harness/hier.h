// Random refinement histories
#pragma once
#include <lf/refinement/refinement.h>

#include "audit.h"

namespace gen {
using lf::refinement::MeshHierarchy;
using lf::refinement::RefPat;

inline const char* pat_name(RefPat p) {
  switch (p) {
    case RefPat::rp_nil: return "nil";
    case RefPat::rp_copy: return "copy";
    case RefPat::rp_split: return "split";
    case RefPat::rp_bisect: return "bisect";
    case RefPat::rp_trisect: return "trisect";
    case RefPat::rp_trisect_left: return "trisect_left";
    case RefPat::rp_quadsect: return "quadsect";
    case RefPat::rp_threeedge: return "threeedge";
    case RefPat::rp_regular: return "regular";
    case RefPat::rp_barycentric: return "barycentric";
    default: return "?";
  }
}

struct Step {
  bool marked = false;
  RefPat pat = RefPat::rp_regular;
  std::vector<bool> marks;  // by edge index of the refined mesh
  std::string text;
};

inline VectorXd edge_mid(const Entity& e) { return e.Geometry()->Global(MatrixXd::Constant(1, 1, 0.5)).col(0); }

// one random step on the finest mesh; returns what was asked for
inline Step random_step(Rng& r, MeshHierarchy& h, int cap, bool allow_marked = true, bool allow_uniform = true) {
  const auto m = h.getMesh(h.NumLevels() - 1);
  const int n = m->NumEntities(0);
  Step s;
  const int k = r.uni(0, 9);
  if (allow_uniform && ((k < 2 && 4 * n <= cap) || !allow_marked)) {
    s.text = "regular";
    r.coin() ? h.RefineRegular() : h.RefineRegular(RefPat::rp_regular);
    return s;
  }
  if (allow_uniform && k == 2 && 6 * n <= cap) {
    s.pat = RefPat::rp_barycentric;
    s.text = "barycentric";
    h.RefineRegular(RefPat::rp_barycentric);
    return s;
  }
  s.marked = true;
  const int ne = m->NumEntities(1);
  s.marks.assign(ne, false);
  const int c = r.uni(0, 9);
  std::vector<int> cells_of(ne, 0);
  for (auto* cell : m->Entities(0))
    for (auto* e : cell->SubEntities(1)) cells_of[m->Index(*e)]++;
  if (c == 0) {
    s.text = "mark none";
  } else if (c == 1) {
    s.text = "mark one";
    s.marks[r.uni(0, ne - 1)] = true;
  } else if (c == 2 && 4 * n <= cap) {
    s.text = "mark all";
    s.marks.assign(ne, true);
  } else if (c == 3) {
    s.text = "mark boundary";
    for (int i = 0; i < ne; ++i) s.marks[i] = cells_of[i] == 1 && r.coin(0.8);
  } else if (c <= 6) {
    s.text = "mark random";
    const double p = 4 * n <= cap ? r.real(0.05, 0.9) : std::min(0.3, 0.1 * cap / n);
    for (int i = 0; i < ne; ++i) s.marks[i] = r.coin(p);
  } else if (c == 7) {
    s.text = "mark one cell's edges";
    auto* cell = m->EntityByIndex(0, r.uni(0, n - 1));
    for (auto* e : cell->SubEntities(1)) s.marks[m->Index(*e)] = r.coin(0.7);
  } else {
    s.text = "mark near a point";
    const VectorXd x = node_pos(*m->EntityByIndex(2, r.uni(0, (int)m->NumEntities(2) - 1)));
    std::vector<std::pair<double, int>> dist;
    for (auto* e : m->Entities(1)) dist.push_back({(edge_mid(*e) - x).norm(), (int)m->Index(*e)});
    std::sort(dist.begin(), dist.end());
    const int q = r.uni(1, std::max(1, std::min(ne, 12)));
    for (int i = 0; i < q; ++i) s.marks[dist[i].second] = true;
  }
  if (r.coin(0.3)) {
    // a first marking, replaced by the second
    s.text += " (after another marking)";
    std::vector<bool> junk(ne);
    for (int i = 0; i < ne; ++i) junk[i] = r.coin();
    h.MarkEdges([&](const lf::mesh::Mesh& mm, const Entity& e) { return static_cast<bool>(junk[mm.Index(e)]); });
  }
  std::vector<int> asked(ne, 0);
  h.MarkEdges([&](const lf::mesh::Mesh& mm, const Entity& e) {
    MON_CHECK(&mm == m.get(), "hier.marker_mesh", "marker called with another mesh");
    asked[mm.Index(e)]++;
    return static_cast<bool>(s.marks[mm.Index(e)]);
  });
  for (int i = 0; i < ne; ++i) MON_CHECK(asked[i] >= 1, "hier.marker_called", "edge " << i << " never offered for marking");
  h.RefineMarked();
  return s;
}
}  // namespace gen
