// R01, R02: refinement histories
#include "hier.h"

using namespace gen;
using mon::u64;

namespace {
std::string ms(const MatrixXd& m) { return mon::mstr(m); }

// everything observable of a mesh, bit by bit
std::string snapshot(const Mesh& m) {
  std::string s;
  auto putd = [&](const MatrixXd& x) { s.append(reinterpret_cast<const char*>(x.data()), sizeof(double) * x.size()); };
  auto puti = [&](unsigned i) { s.append(reinterpret_cast<const char*>(&i), sizeof i); };
  for (unsigned cd = 0; cd <= 2; ++cd) {
    puti(m.NumEntities(cd));
    for (auto* e : m.Entities(cd)) {
      puti(m.Index(*e));
      puti(e->RefEl().Id());
      for (unsigned sc = 1; sc + cd <= 2; ++sc)
        for (auto* q : e->SubEntities(sc)) puti(m.Index(*q));
      if (cd < 2)
        for (auto o : e->RelativeOrientations()) puti(lf::mesh::to_sign(o) + 1);
      MatrixXd x;
      if (cd == 2) x.resize(0, 1);
      if (cd == 1) x = (MatrixXd(1, 4) << 0, 1, 0.5, 0.3).finished();
      if (cd == 0) x = (MatrixXd(2, 4) << 0, 0.3, 0.5, 0.1, 0, 0.6, 0.5, 0.2).finished();
      putd(e->Geometry()->Global(x));
    }
  }
  return s;
}

double cross2(const VectorXd& a, const VectorXd& b) { return a(0) * b(1) - a(1) * b(0); }
// signed area enclosed by the (at most quadratic) sides of a planar cell
double signed_area(const Entity& c) {
  const auto& g = *c.Geometry();
  const MatrixXd rc = c.RefEl().NodeCoords();
  const int n = rc.cols();
  const VectorXd o = g.Global(rc.col(0)).col(0);
  double a = 0;
  for (int i = 0; i < n; ++i) {
    MatrixXd x(2, 3);
    x << rc.col(i), rc.col((i + 1) % n), 0.5 * (rc.col(i) + rc.col((i + 1) % n));
    MatrixXd p = g.Global(x);
    p.colwise() -= o;
    const VectorXd b = -3 * p.col(0) - p.col(1) + 4 * p.col(2), q = 2 * p.col(0) + 2 * p.col(1) - 4 * p.col(2);
    a += 0.5 * (cross2(p.col(0), b) + cross2(p.col(0), q) + cross2(b, q) / 3);
  }
  return a;
}
// range of the sampled Jacobian determinant of a planar cell
std::pair<double, double> det_range(const Entity& c) {
  const int n = c.RefEl().NumNodes(), k = 4;
  MatrixXd x(2, 0);
  for (int i = 0; i <= k; ++i)
    for (int j = 0; j <= (n == 3 ? k - i : k); ++j) {
      x.conservativeResize(2, x.cols() + 1);
      x.col(x.cols() - 1) << double(i) / k, double(j) / k;
    }
  const MatrixXd J = c.Geometry()->Jacobian(x);
  double lo = 1e300, hi = -1e300;
  for (int i = 0; i < x.cols(); ++i) {
    const double d = J.middleCols(2 * i, 2).determinant();
    lo = std::min(lo, d);
    hi = std::max(hi, d);
  }
  return {lo, hi};
}
double length(const Entity& e) {
  // composite 4 point Gauss
  static const double gx[4] = {0.06943184420297371, 0.33000947820757187, 0.6699905217924281, 0.9305681557970262};
  static const double gw[4] = {0.17392742256872693, 0.32607257743127307, 0.32607257743127307, 0.17392742256872693};
  MatrixXd x(1, 16);
  VectorXd w(16);
  for (int b = 0; b < 4; ++b)
    for (int i = 0; i < 4; ++i) x(0, 4 * b + i) = (b + gx[i]) / 4, w(4 * b + i) = gw[i] / 4;
  return w.dot(e.Geometry()->IntegrationElement(x));
}
std::vector<int> cells_per_edge(const Mesh& m) {
  std::vector<int> n(m.NumEntities(1), 0);
  for (auto* c : m.Entities(0))
    for (auto* e : c->SubEntities(1)) n[m.Index(*e)]++;
  return n;
}
double extent(const Mesh& m) {
  double s = 0;
  VectorXd lo, hi;
  for (auto* p : m.Entities(2)) {
    const VectorXd x = node_pos(*p);
    if (lo.size() == 0) lo = hi = x;
    lo = lo.cwiseMin(x);
    hi = hi.cwiseMax(x);
    s = std::max(s, x.cwiseAbs().maxCoeff());
  }
  return s + (hi - lo).norm();
}

// one level on its own: incidence, distinct nodes, cells' sides = edges' shapes
void check_level(const Mesh& m, double at, Rng& r, bool regular, const std::string& tag) {
  audit(m, true);
  std::vector<std::pair<std::vector<double>, int>> pos;
  for (auto* p : m.Entities(2)) {
    const VectorXd x = node_pos(*p);
    pos.push_back({{x.data(), x.data() + x.size()}, (int)m.Index(*p)});
  }
  std::sort(pos.begin(), pos.end());
  for (std::size_t i = 0; i < pos.size(); ++i)
    for (std::size_t j = i + 1; j < pos.size() && pos[j].first[0] - pos[i].first[0] <= 10 * at; ++j) {
      double d = 0;
      for (std::size_t k = 0; k < pos[i].first.size(); ++k) d = std::max(d, std::abs(pos[i].first[k] - pos[j].first[k]));
      MON_CHECK(d > 10 * at, "hier.distinct_nodes", tag << " nodes " << pos[i].second << " and " << pos[j].second << " coincide");
    }
  mon::event("hier.distinct_nodes");
  const MatrixXd t = (MatrixXd(1, 4) << 0, 1, 0.5, r.real()).finished();
  for (auto* c : m.Entities(0)) {
    const MatrixXd rc = c->RefEl().NodeCoords();
    const auto ed = c->SubEntities(1);
    const auto o = c->RelativeOrientations();
    const auto nd = c->SubEntities(2);
    const MatrixXd cg = c->Geometry()->Global(rc);
    for (int i = 0; i < rc.cols(); ++i) {
      MON_CHECK((cg.col(i) - node_pos(*nd[i])).cwiseAbs().maxCoeff() <= at, "hier.corner_position", tag << " cell " << m.Index(*c) << " corner " << i);
      MatrixXd s = t;
      if (o[i] == lf::mesh::Orientation::negative) s = (1 - t.array()).matrix();
      const MatrixXd y = rc.col(i) * (1 - t.array()).matrix() + rc.col((i + 1) % rc.cols()) * t;
      const MatrixXd a = ed[i]->Geometry()->Global(s), b = c->Geometry()->Global(y.cwiseMax(0.0).cwiseMin(1.0));
      MON_CHECK((a - b).cwiseAbs().maxCoeff() <= at, "hier.shared_side", tag << " cell " << m.Index(*c) << " side " << i << " edge shape " << ms(a) << " cell side " << ms(b));
    }
    if (regular && m.DimWorld() == 2) {
      const auto [lo, hi] = det_range(*c);
      MON_CHECK(lo * hi > 0, "hier.cell_folded", tag << " cell " << m.Index(*c) << " determinant in [" << lo << "," << hi << "]");
    }
  }
}

struct Domain {
  double area = 0, bnd = 0;
  long euler = 0;
};
Domain domain(const Mesh& m) {
  Domain d;
  d.euler = (long)m.NumEntities(2) - (long)m.NumEntities(1) + (long)m.NumEntities(0);
  if (m.DimWorld() == 2)
    for (auto* c : m.Entities(0)) d.area += std::abs(signed_area(*c));
  const auto n = cells_per_edge(m);
  for (auto* e : m.Entities(1))
    if (n[m.Index(*e)] == 1) d.bnd += length(*e);
  return d;
}

bool straight(const Desc& d) { return !d.curved(); }

// folded children can only arise from curved quadrilaterals
bool curved_quads(const Desc& d) {
  for (std::size_t c = 0; c < d.cells.size(); ++c) {
    if (d.cells[c].v.size() != 4) continue;
    for (int i = 0; i < 4; ++i)
      if (d.mid.count(ekey(d.cells[c].v[i], d.cells[c].v[(i + 1) % 4]))) return true;
  }
  return false;
}

// parent / child relations between level l-1 and l through the public records
// only; conforming division of every coarse cell
void check_step(const MeshHierarchy& h, unsigned l, double at, bool planar, const Step& s, const std::string& tag) {
  const Mesh &C = *h.getMesh(l - 1), &F = *h.getMesh(l);
  const auto nc = cells_per_edge(C), nf = cells_per_edge(F);
  // hanging nodes: one-sided edges of the fine mesh are parts of one-sided
  // edges of the coarse mesh, edges inside cells have two cells
  for (auto* e : F.Entities(1)) {
    const auto ix = F.Index(*e);
    const Entity* p = h.ParentEntity(l, *e);
    MON_REQUIRE(p != nullptr && p->Codim() <= 1, "hier.edge_parent", tag << " edge " << ix);
    const int want = p->Codim() == 1 ? nc[C.Index(*p)] : 2;
    MON_CHECK(nf[ix] == want, "hier.hanging", tag << " level " << l << " edge " << ix << " has " << nf[ix] << " cells, " << want << " expected");
  }
  if (planar) {
    std::vector<double> sum(C.NumEntities(0), 0.0);
    for (auto* c : F.Entities(0)) {
      const Entity* p = h.ParentEntity(l, *c);
      MON_REQUIRE(p != nullptr && p->Codim() == 0, "hier.cell_parent", tag);
      sum[C.Index(*p)] += std::abs(signed_area(*c));
    }
    for (auto* c : C.Entities(0)) {
      const double a = std::abs(signed_area(*c));
      MON_CHECK(std::abs(sum[C.Index(*c)] - a) <= 1e-10 * a + at * at + 20 * at * std::sqrt(a), "hier.children_area",
                tag << " level " << l - 1 << " cell " << C.Index(*c) << " area " << a << " children " << sum[C.Index(*c)]);
    }
  }
  // marks
  const auto& eci = h.EdgeChildInfos(l - 1);
  MON_REQUIRE(eci.size() == C.NumEntities(1), "hier.edge_infos", tag);
  if (s.marked) {
    bool any = false;
    for (std::size_t i = 0; i < s.marks.size(); ++i) {
      any = any || s.marks[i];
      if (s.marks[i])
        MON_CHECK(eci[i].ref_pat_ == RefPat::rp_split && eci[i].child_point_idx.size() == 1 && eci[i].child_edge_idx.size() == 2,
                  "hier.marked_split", tag << " marked edge " << i << " not split");
    }
    if (!any) {
      MON_CHECK(F.NumEntities(0) == C.NumEntities(0) && F.NumEntities(1) == C.NumEntities(1) && F.NumEntities(2) == C.NumEntities(2),
                "hier.no_marks", tag << " cells " << C.NumEntities(0) << " -> " << F.NumEntities(0));
    }
  } else {
    for (auto& e : eci) MON_CHECK(e.ref_pat_ == RefPat::rp_split, "hier.uniform_split", tag);
    const long t = C.NumEntities(RefEl::kTria()), q = C.NumEntities(RefEl::kQuad());
    const bool bary = s.pat == RefPat::rp_barycentric;
    const long ft = F.NumEntities(RefEl::kTria()), fq = F.NumEntities(RefEl::kQuad());
    MON_CHECK(ft == (bary ? 6 * t : 4 * t) && fq == 4 * q, "hier.uniform_counts",
              tag << " " << t << "," << q << " -> " << ft << "," << fq);
  }
  // a split edge gets a node at its middle and two halves
  for (auto* e : C.Entities(1)) {
    const auto& i = eci[C.Index(*e)];
    if (i.ref_pat_ != RefPat::rp_split) {
      MON_CHECK(i.ref_pat_ == RefPat::rp_copy && i.child_edge_idx.size() == 1 && i.child_point_idx.empty(), "hier.edge_copy", tag);
      continue;
    }
    MON_REQUIRE(i.child_point_idx.size() == 1 && i.child_edge_idx.size() == 2 && i.child_point_idx[0] < F.NumEntities(2) &&
                    i.child_edge_idx[0] < F.NumEntities(1) && i.child_edge_idx[1] < F.NumEntities(1),
                "hier.edge_children", tag);
    const Entity* p = F.EntityByIndex(2, i.child_point_idx[0]);
    MON_CHECK((node_pos(*p) - edge_mid(*e)).cwiseAbs().maxCoeff() <= at, "hier.midpoint", tag << " edge " << C.Index(*e));
    for (int k = 0; k < 2; ++k) {
      const Entity* ch = F.EntityByIndex(1, i.child_edge_idx[k]);
      const MatrixXd a = ch->Geometry()->Global((MatrixXd(1, 3) << 0, 0.5, 1).finished());
      const MatrixXd b = e->Geometry()->Global((MatrixXd(1, 3) << 0.5 * k, 0.5 * k + 0.25, 0.5 * k + 0.5).finished());
      const MatrixXd b2 = b.rowwise().reverse();
      MON_CHECK((a - b).cwiseAbs().maxCoeff() <= at || (a - b2).cwiseAbs().maxCoeff() <= at, "hier.half_edge",
                tag << " edge " << C.Index(*e) << " half " << k << " " << ms(a) << " want " << ms(b));
    }
  }
}

// the children of regular marked or uniform refinement: which child keeps a
// fold is decided by the parent, so only flag folds when nothing is folded
bool all_regular(const Mesh& m) {
  if (m.DimWorld() != 2) return true;
  for (auto* c : m.Entities(0)) {
    const auto [lo, hi] = det_range(*c);
    if (lo * hi <= 0) return false;
  }
  return true;
}

Opts hier_opts(Rng& r) {
  Opts o;
  o.max_cells = r.coin(0.3) ? r.uni(1, 4) : r.uni(2, 24);
  o.book = true;
  return o;
}

void r01_case(Rng& r, u64) {
  const Desc d = random_desc(r, hier_opts(r));
  const std::string tag0 = describe(d);
  auto base = build(d);
  const double at = 1e-11 * extent(*base);
  const int cap = mon::thorough() ? 1500 : 350;
  MeshHierarchy h(base, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(d.dw));
  MON_CHECK(h.NumLevels() == 1 && h.getMesh(0) == base, "hier.base", tag0);
  std::vector<std::string> snap{snapshot(*base)};
  std::vector<const Mesh*> ptr{base.get()};
  const Domain d0 = domain(*base);
  const int steps = r.uni(1, mon::thorough() ? 6 : 4);
  const bool no_cq = !curved_quads(d);
  std::string tag = tag0;
  u64 hsh = d.hash();
  for (int k = 0; k < steps; ++k) {
    const bool m_only = r.coin(0.3);
    const Step s = random_step(r, h, cap, true, !m_only);
    tag += " | " + s.text;
    mon::event("step." + s.text.substr(0, s.text.find(" (")));
    hsh = mon::hcomb(hsh, mon::hash_str(s.text));
    const unsigned l = h.NumLevels() - 1;
    MON_REQUIRE((int)l == k + 1, "hier.levels", tag << " has " << h.NumLevels() << " levels");
    const auto m = h.getMesh(l);
    MON_REQUIRE(m != nullptr && m->DimWorld() == (unsigned)d.dw, "hier.mesh", tag);
    const bool flat = d.dw == 2;
    check_level(*m, at, r, no_cq, tag);
    check_step(h, l, at, flat && (no_cq || (all_regular(*m) && all_regular(*h.getMesh(l - 1)))), s, tag);
    const Domain dk = domain(*m);
    MON_CHECK(dk.euler == d0.euler, "hier.euler", tag << " " << d0.euler << " -> " << dk.euler);
    MON_CHECK(std::abs(dk.bnd - d0.bnd) <= 1e-6 * d0.bnd + 1e3 * at, "hier.boundary_length", tag << " " << d0.bnd << " -> " << dk.bnd);
    if (flat && no_cq)
      MON_CHECK(std::abs(dk.area - d0.area) <= 1e-9 * d0.area + at * 100 * std::sqrt(d0.area), "hier.area", tag << " " << d0.area << " -> " << dk.area);
    for (unsigned i = 0; i < l; ++i) {
      MON_CHECK(h.getMesh(i).get() == ptr[i] && snapshot(*h.getMesh(i)) == snap[i], "hier.earlier_levels", tag << " level " << i << " changed");
    }
    snap.push_back(snapshot(*m));
    ptr.push_back(m.get());
    hsh = mon::hcomb(hsh, m->NumEntities(0));
    for (auto& ci : h.CellChildInfos(l - 1)) mon::event(std::string("cellpat.") + pat_name(ci.ref_pat_));
    if ((int)m->NumEntities(0) > cap) break;
  }
  mon::note("max_cells_on_level", h.getMesh(h.NumLevels() - 1)->NumEntities(0));
  const auto all = h.getMeshes();
  MON_CHECK(all.size() == h.NumLevels(), "hier.meshes", tag);
  for (std::size_t i = 0; i < all.size(); ++i) MON_CHECK(all[i].get() == ptr[i], "hier.meshes", tag << " level " << i);
  mon::must_fail("hier.bad_level", "getMesh beyond the finest level", [&] { (void)h.getMesh(h.NumLevels()); });
  mon::sig(hsh);
  mon::sample(tag + " -> " + std::to_string(h.getMesh(h.NumLevels() - 1)->NumEntities(0)) + " cells");
}

// the convenience generator against the hierarchy built step by step
void r01_uniform(Rng& r, u64) {
  Opts o = hier_opts(r);
  o.max_cells = 10;
  const Desc d = random_desc(r, o);
  const RefPat p = r.coin() ? RefPat::rp_regular : RefPat::rp_barycentric;
  const int n = r.uni(0, 2);
  const std::string tag = describe(d) + " uniform " + pat_name(p) + " x" + std::to_string(n);
  mon::sig(mon::hcomb(d.hash(), n * 10 + (int)p));
  std::shared_ptr<MeshHierarchy> h;
  auto base = build(d);
  MON_REQUIRE(mon::no_throw("hier.generate", [&] { h = lf::refinement::GenerateMeshHierarchyByUniformRefinemnt(base, n, p); }), "hier.generate", tag);
  MON_REQUIRE(h != nullptr && (int)h->NumLevels() == n + 1, "hier.generate_levels", tag);
  MeshHierarchy g(build(d), std::make_unique<lf::mesh::hybrid2d::MeshFactory>(d.dw));
  for (int i = 0; i < n; ++i) g.RefineRegular(p);
  for (int i = 0; i <= n; ++i)
    MON_CHECK(snapshot(*h->getMesh(i)) == snapshot(*g.getMesh(i)), "hier.generate_same", tag << " level " << i);
}

// ---------------------------------------------------------------- R02 -------
struct Counts {
  int cells, edges, points;
};
Counts expected_children(RefEl t, RefPat p) {
  const bool tri = t == RefEl::kTria();
  switch (p) {
    case RefPat::rp_copy: return {1, 0, 0};
    case RefPat::rp_bisect: return {2, 1, 0};
    case RefPat::rp_trisect:
    case RefPat::rp_trisect_left: return {3, 2, 0};
    case RefPat::rp_split: return {2, 1, 0};
    case RefPat::rp_quadsect: return {4, 3, 0};
    case RefPat::rp_threeedge: return {4, 3, 0};
    case RefPat::rp_regular: return tri ? Counts{4, 3, 0} : Counts{4, 4, 1};
    case RefPat::rp_barycentric: return tri ? Counts{6, 6, 1} : Counts{4, 4, 1};
    default: return {-1, -1, -1};
  }
}

void relations(const MeshHierarchy& h, unsigned l, double at, Rng& r, const std::string& tag) {
  const Mesh &C = *h.getMesh(l - 1), &F = *h.getMesh(l);
  const auto& pi = h.PointChildInfos(l - 1);
  const auto& ei = h.EdgeChildInfos(l - 1);
  const auto& ci = h.CellChildInfos(l - 1);
  MON_REQUIRE(pi.size() == C.NumEntities(2) && ei.size() == C.NumEntities(1) && ci.size() == C.NumEntities(0), "rel.child_info_size", tag);
  // owner of every fine entity according to the children lists
  struct Own {
    const Entity* parent = nullptr;
    unsigned number = 0;
  };
  std::array<std::vector<Own>, 3> own;
  for (unsigned cd = 0; cd <= 2; ++cd) own[cd].resize(F.NumEntities(cd));
  auto claim = [&](unsigned cd, unsigned child, const Entity* parent, unsigned number) {
    MON_REQUIRE(child < own[cd].size(), "rel.child_range", tag << " codim " << cd << " child " << child);
    MON_CHECK(own[cd][child].parent == nullptr, "rel.one_parent", tag << " level " << l << " codim " << cd << " entity " << child << " is listed as a child twice");
    own[cd][child] = {parent, number};
  };
  for (auto* p : C.Entities(2)) {
    const auto& i = pi[C.Index(*p)];
    MON_CHECK(i.ref_pat == RefPat::rp_copy, "rel.point_pattern", tag);
    claim(2, i.child_point_idx, p, 0);
  }
  for (auto* e : C.Entities(1)) {
    const auto& i = ei[C.Index(*e)];
    const bool sp = i.ref_pat_ == RefPat::rp_split;
    MON_CHECK(sp || i.ref_pat_ == RefPat::rp_copy, "rel.edge_pattern", tag);
    MON_CHECK(i.child_edge_idx.size() == (sp ? 2u : 1u) && i.child_point_idx.size() == (sp ? 1u : 0u), "rel.edge_counts", tag << " edge " << C.Index(*e));
    for (unsigned k = 0; k < i.child_edge_idx.size(); ++k) claim(1, i.child_edge_idx[k], e, k);
    for (unsigned k = 0; k < i.child_point_idx.size(); ++k) claim(2, i.child_point_idx[k], e, k);
  }
  for (auto* c : C.Entities(0)) {
    const auto& i = ci[C.Index(*c)];
    const Counts n = expected_children(c->RefEl(), i.ref_pat_);
    MON_CHECK((int)i.child_cell_idx.size() == n.cells && (int)i.child_edge_idx.size() == n.edges && (int)i.child_point_idx.size() == n.points,
              "rel.cell_counts", tag << " cell " << C.Index(*c) << " pattern " << pat_name(i.ref_pat_) << ": " << i.child_cell_idx.size() << "," << i.child_edge_idx.size() << "," << i.child_point_idx.size());
    for (unsigned k = 0; k < i.child_cell_idx.size(); ++k) claim(0, i.child_cell_idx[k], c, k);
    for (unsigned k = 0; k < i.child_edge_idx.size(); ++k) claim(1, i.child_edge_idx[k], c, k);
    for (unsigned k = 0; k < i.child_point_idx.size(); ++k) claim(2, i.child_point_idx[k], c, k);
    mon::event(std::string("cellpat.") + pat_name(i.ref_pat_));
    // the pattern reflects which sides are split
    int cnt = 0;
    for (auto* e : c->SubEntities(1)) cnt += ei[C.Index(*e)].ref_pat_ == RefPat::rp_split;
    const int ns = c->RefEl().NumNodes();
    if (i.ref_pat_ == RefPat::rp_copy) MON_CHECK(cnt == 0, "rel.pattern_sides", tag);
    if (i.ref_pat_ == RefPat::rp_regular || i.ref_pat_ == RefPat::rp_barycentric) MON_CHECK(cnt == ns, "rel.pattern_sides", tag);
    if (cnt == 0) MON_CHECK(i.ref_pat_ == RefPat::rp_copy, "rel.pattern_sides", tag);
  }
  for (unsigned cd = 0; cd <= 2; ++cd) {
    const auto& par = h.ParentInfos(l, cd);
    MON_REQUIRE(par.size() == F.NumEntities(cd), "rel.parent_info_size", tag);
    for (auto* e : F.Entities(cd)) {
      const auto ix = F.Index(*e);
      const auto& o = own[cd][ix];
      const auto& q = par[ix];
      MON_REQUIRE(o.parent != nullptr, "rel.orphan", tag << " level " << l << " codim " << cd << " entity " << ix << " is nobody's child");
      MON_CHECK(q.parent_ptr == o.parent && q.parent_index == C.Index(*o.parent) && q.child_number == o.number, "rel.inverse",
                tag << " level " << l << " codim " << cd << " entity " << ix << " parent index " << q.parent_index << " number " << q.child_number << ", children lists say " << C.Index(*o.parent) << "," << o.number);
      MON_CHECK(h.ParentEntity(l, *e) == o.parent, "rel.parent_entity", tag);
      MON_CHECK(o.parent->Codim() <= cd, "rel.parent_dim", tag);
      // position in parent
      const auto* g = h.GeometryInParent(l, *e);
      MON_REQUIRE(g != nullptr, "rel.position", tag);
      MON_CHECK(g->RefEl() == e->RefEl() && g->DimGlobal() == o.parent->RefEl().Dimension(), "rel.position_type", tag << " codim " << cd);
      if (q.rel_ref_geo_) MON_CHECK(q.rel_ref_geo_.get() == g, "rel.position_same", tag);
      const auto& pg = *o.parent->Geometry();
      const int n = e->RefEl().NumNodes(), pn = o.parent->RefEl().NumNodes();
      auto compose = [&](const MatrixXd& x) {
        const MatrixXd y = g->Global(x);
        return MatrixXd(pg.Global(y.cwiseMax(0.0).cwiseMin(1.0)));
      };
      auto agree = [&](const MatrixXd& x, const char* key) {
        const MatrixXd a = compose(x), b = e->Geometry()->Global(x);
        MON_CHECK((a - b).cwiseAbs().maxCoeff() <= at, key, tag << " level " << l << " codim " << cd << " entity " << ix << " in parent of " << pn << " corners: " << ms(a) << " instead of " << ms(b));
      };
      if (pn == 1) {
        MON_CHECK((node_pos(*e) - node_pos(*o.parent)).cwiseAbs().maxCoeff() <= at, "rel.copy_point", tag);
        continue;
      }
      const MatrixXd nc = n == 1 ? MatrixXd(0, 1) : MatrixXd(e->RefEl().NodeCoords());
      const MatrixXd inpar = g->Global(nc);
      bool in = true;
      for (int i = 0; i < inpar.cols(); ++i) {
        for (int k = 0; k < inpar.rows(); ++k) in = in && inpar(k, i) >= 0 && inpar(k, i) <= 1;
        if (pn == 3) in = in && inpar.col(i).sum() <= 1 + 1e-14;
      }
      MON_CHECK(in, "rel.inside_parent", tag << " codim " << cd << " entity " << ix << " at " << ms(inpar));
      agree(nc, "rel.corners");
      if (n == 1) continue;
      bool exact = pn != 4 || pg.isAffine();
      if (!exact && n != 3) {
        exact = true;
        for (int i = 0; i < inpar.cols(); ++i) {
          const VectorXd dlt = inpar.col((i + 1) % inpar.cols()) - inpar.col(i);
          if (dlt(0) != 0 && dlt(1) != 0) exact = false;
        }
      }
      if (exact) agree(ref_points(r, n, 3), "rel.everywhere");
    }
  }
}

void r02_case(Rng& r, u64) {
  const Desc d = random_desc(r, hier_opts(r));
  std::string tag = describe(d);
  auto base = build(d);
  const double at = 1e-11 * extent(*base);
  const int cap = mon::thorough() ? 1000 : 250;
  MeshHierarchy h(base, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(d.dw));
  const int steps = r.uni(1, mon::thorough() ? 6 : 4);
  u64 hsh = d.hash();
  for (int k = 0; k < steps; ++k) {
    const Step s = random_step(r, h, cap, true, r.coin(0.8));
    tag += " | " + s.text;
    hsh = mon::hcomb(hsh, mon::hash_str(s.text));
    // the finest level carries no children yet
    const unsigned L = h.NumLevels() - 1;
    for (auto& i : h.CellChildInfos(L)) MON_CHECK(i.child_cell_idx.empty() && i.ref_pat_ == RefPat::rp_nil, "rel.finest_childless", tag);
    relations(h, L, at, r, tag);
    if ((int)h.getMesh(L)->NumEntities(0) > cap) break;
  }
  // older records must have survived
  for (unsigned l = 1; l + 1 < h.NumLevels(); ++l) relations(h, l, at, r, tag + " (again level " + std::to_string(l) + ")");
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (auto& q : h.ParentInfos(0, cd)) MON_CHECK(q.parent_ptr == nullptr, "rel.base_parentless", tag);
  mon::sig(hsh);
  mon::sample(tag);
}
}  // namespace

void mon::register_all() {
  stream("R01", "history", 260, 6000, r01_case);
  stream("R01", "uniform", 60, 500, r01_uniform);
  stream("R02", "history", 300, 6000, r02_case);
  expect("R01", {"hier.marked_split", "hier.children_area", "hier.no_marks", "hier.earlier_levels"});
  expect("R02", {"rel.everywhere", "rel.corners"});
  expect({"cellpat.trisect", "cellpat.trisect_left", "cellpat.threeedge", "cellpat.quadsect", "cellpat.bisect", "cellpat.barycentric", "cellpat.regular"});
}
