// D01, D02: product spaces, traces, fluxes and Petrov-Galerkin local blocks.
#include <dpg_element_matrix_provider.h>
#include <dpg_element_vector_provider.h>
#include <dpg_tools.h>
#include <loc_comp_dpg.h>
#include <product_element_matrix_provider_builder.h>
#include <product_element_vector_provider_builder.h>
#include <product_fe_space.h>
#include <product_fe_space_factory.h>

#include "ell.h"

using namespace mon;
using namespace ell;
namespace dpg = projects::dpg;
using lf::base::glb_idx_t;
using Product = dpg::ProductUniformFESpace<double>;
using Factory = dpg::ProductUniformFESpaceFactory<double>;
using DofMap = std::map<RefEl, lf::base::size_type>;

namespace {
enum Comp { kH1, kL2, kFlux, kTrace };
struct CompSpec {
  Comp k;
  int p;
};
std::string str_of(const std::vector<CompSpec>& v) {
  std::string s;
  for (auto& c : v) s += std::string(c.k == kH1 ? "H" : c.k == kL2 ? "L" : c.k == kFlux ? "F" : "T") + std::to_string(c.p) + " ";
  return s;
}
CompSpec random_comp(Rng& r, int k = -1) {
  CompSpec c;
  c.k = static_cast<Comp>(k < 0 ? r.uni(0, 3) : k);
  c.p = c.k == kH1 || c.k == kTrace ? r.uni(1, 3) : r.uni(0, 3);
  return c;
}
unsigned add_to(Factory& f, CompSpec c) {
  switch (c.k) {
    case kH1: return f.AddH1Component(c.p);
    case kL2: return f.AddL2Component(c.p);
    case kFlux: return f.AddFluxComponent(c.p);
    default: return f.AddTraceComponent(c.p);
  }
}
// numbers of functions per entity type
DofMap layout(CompSpec c) {
  const unsigned p = c.p, ti = p == 3 ? 1 : 0, qi = (p - 1) * (p - 1);
  switch (c.k) {
    case kH1: return {{RefEl::kPoint(), 1}, {RefEl::kSegment(), p - 1}, {RefEl::kTria(), ti}, {RefEl::kQuad(), qi}};
    case kTrace: return {{RefEl::kPoint(), 1}, {RefEl::kSegment(), p - 1}, {RefEl::kTria(), 0}, {RefEl::kQuad(), 0}};
    case kL2: return {{RefEl::kPoint(), 0}, {RefEl::kSegment(), 0}, {RefEl::kTria(), (p + 1) * (p + 2) / 2}, {RefEl::kQuad(), (p + 1) * (p + 1)}};
    default: return {{RefEl::kPoint(), 0}, {RefEl::kSegment(), p + 1}, {RefEl::kTria(), 0}, {RefEl::kQuad(), 0}};
  }
}

// the numbering of a single layout, put together here
struct Numbering {
  std::array<std::vector<std::vector<unsigned>>, 3> own, all;
  unsigned n = 0;
  Numbering(const lf::mesh::Mesh& m, const DofMap& dm) {
    for (int cd = 2; cd >= 0; --cd) {
      own[cd].resize(m.NumEntities(cd));
      for (const Entity* e : m.Entities(cd)) {
        auto it = dm.find(e->RefEl());
        own[cd][m.Index(*e)] = {};
        (void)it;
      }
      for (unsigned i = 0; i < m.NumEntities(cd); ++i) {
        auto it = dm.find(m.EntityByIndex(cd, i)->RefEl());
        for (unsigned k = 0; it != dm.end() && k < it->second; ++k) own[cd][i].push_back(n++);
      }
    }
    for (int cd = 2; cd >= 0; --cd) {
      all[cd].resize(m.NumEntities(cd));
      for (const Entity* e : m.Entities(cd)) {
        auto& L = all[cd][m.Index(*e)];
        for (int sc = 2 - cd; sc >= 0; --sc) {
          const auto sub = e->SubEntities(sc);
          for (std::size_t s = 0; s < sub.size(); ++s) {
            auto I = own[cd + sc][m.Index(*sub[s])];
            if (cd == 0 && sc == 1 && e->RelativeOrientations()[s] == lf::mesh::Orientation::negative) std::reverse(I.begin(), I.end());
            L.insert(L.end(), I.begin(), I.end());
          }
        }
      }
    }
  }
};

void audit(const lf::mesh::Mesh& m, const dpg::ProductUniformFEDofHandler& h, const std::vector<DofMap>& maps, const std::string& tag) {
  std::vector<Numbering> num;
  for (auto& dm : maps) num.emplace_back(m, dm);
  MON_REQUIRE(h.NumComponents() == maps.size(), "components", tag);
  unsigned off = 0;
  std::vector<unsigned> offs;
  for (std::size_t c = 0; c < maps.size(); ++c) {
    MON_CHECK(h.Offset(c) == off, "contiguous_blocks", tag << " component " << c << " starts at " << h.Offset(c) << " expected " << off);
    MON_CHECK(h.NumDofs(c) == num[c].n, "component_size", tag << " component " << c << " " << h.NumDofs(c) << " expected " << num[c].n);
    MON_CHECK(h.ComponentDofHandler(c).NumDofs() == num[c].n, "component_size", tag);
    offs.push_back(off);
    off += num[c].n;
  }
  MON_REQUIRE(h.NumDofs() == off, "total_size", tag << " " << h.NumDofs() << " expected " << off);
  MON_CHECK(h.Mesh().get() == &m, "same_mesh", tag);
  std::vector<int> seen(off, 0);
  const lf::assemble::DofHandler& base = h;
  for (int cd = 2; cd >= 0; --cd)
    for (const Entity* e : m.Entities(cd)) {
      const unsigned idx = m.Index(*e);
      std::vector<unsigned> all, own;
      for (std::size_t c = 0; c < maps.size(); ++c) {
        MON_CHECK(h.LocalStartIndex(*e, c) == all.size(), "local_offset", tag << " codim " << cd << " entity " << idx << " component " << c);
        MON_CHECK(h.NumLocalDofs(*e, c) == num[c].all[cd][idx].size(), "local_count", tag << " codim " << cd << " entity " << idx << " component " << c);
        MON_CHECK(h.NumInteriorDofs(*e, c) == num[c].own[cd][idx].size(), "interior_count", tag << " codim " << cd << " entity " << idx << " component " << c);
        for (unsigned k : num[c].all[cd][idx]) all.push_back(k + offs[c]);
        for (unsigned k : num[c].own[cd][idx]) own.push_back(k + offs[c]);
      }
      MON_CHECK(base.NumLocalDofs(*e) == all.size(), "local_count", tag << " codim " << cd << " entity " << idx);
      MON_CHECK(base.NumInteriorDofs(*e) == own.size(), "interior_count", tag << " codim " << cd << " entity " << idx);
      const auto G = base.GlobalDofIndices(*e);
      const auto I = base.InteriorGlobalDofIndices(*e);
      bool ok = G.size() == all.size();
      for (std::size_t k = 0; ok && k < all.size(); ++k) ok = static_cast<unsigned>(G[k]) == all[k];
      MON_CHECK(ok, "index_list", tag << " codim " << cd << " entity " << idx);
      ok = I.size() == own.size();
      for (std::size_t k = 0; ok && k < own.size(); ++k) ok = static_cast<unsigned>(I[k]) == own[k];
      MON_CHECK(ok, "interior_list", tag << " codim " << cd << " entity " << idx);
      for (auto g : I) {
        MON_REQUIRE(g >= 0 && static_cast<unsigned>(g) < off, "index_range", tag << " " << g);
        seen[g]++;
        MON_CHECK(&base.Entity(g) == e, "entity_of_dof", tag << " dof " << g);
        unsigned c = 0;
        while (c + 1 < offs.size() && offs[c + 1] <= static_cast<unsigned>(g)) ++c;
        // skip empty blocks
        MON_CHECK(static_cast<unsigned>(g) >= h.Offset(h.Component(g)) && static_cast<unsigned>(g) < h.Offset(h.Component(g)) + h.NumDofs(h.Component(g)), "component_of_dof", tag << " dof " << g << " component " << h.Component(g));
      }
    }
  for (unsigned g = 0; g < off; ++g) MON_CHECK(seen[g] == 1, "one_owner", tag << " dof " << g << " owned " << seen[g] << " times");
  must_fail("out_of_range", "component of a dof beyond the last", [&] { (void)h.Component(off); });
}

void handlers(Rng& rng, u64) {
  Opts o;
  o.max_cells = thorough() ? 30 : 12;
  const Desc d = random_desc(rng, o);
  const auto m = build(d);
  const int n = rng.uni(1, 5);
  std::vector<DofMap> maps;
  std::string ls;
  for (int c = 0; c < n; ++c) {
    DofMap dm;
    for (RefEl r : {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()})
      if (rng.coin(0.75)) dm[r] = rng.coin(0.3) ? 0 : rng.uni(1, 4);
    maps.push_back(dm);
    ls += "{";
    for (auto& [r, k] : dm) ls += r.ToString().substr(0, 1) + std::to_string(k) + ",";
    ls += "}";
  }
  const dpg::ProductUniformFEDofHandler h(m, maps);
  audit(*m, h, maps, describe(d) + " / " + ls);
  sig(hcomb(d.hash(), hash_str(ls)));
  sample(describe(d) + " / " + ls);
}

// histories of a factory
void factory(Rng& rng, u64) {
  Opts o;
  o.max_cells = thorough() ? 20 : 8;
  const Desc d = random_desc(rng, o);
  const auto m = build(d);
  Factory f(m);
  std::string all;
  const int rounds = rng.uni(1, 3);
  for (int round = 0; round < rounds; ++round) {
    const int n = rng.uni(1, 5);
    std::vector<CompSpec> cs;
    for (int c = 0; c < n; ++c) {
      cs.push_back(random_comp(rng));
      const unsigned got = add_to(f, cs.back());
      MON_CHECK(got == static_cast<unsigned>(c), "factory_index", describe(d) << " after " << all << str_of(cs) << " component number " << got);
      MON_CHECK(f.NumComponents() == static_cast<unsigned>(c + 1), "factory_count", describe(d) << " " << f.NumComponents());
    }
    all += str_of(cs) + "| ";
    const std::string tag = describe(d) + " / " + all;
    const auto fes = f.Build();
    MON_REQUIRE(fes->NumComponents() == cs.size(), "factory_count", tag);
    MON_CHECK(fes->Mesh() == m, "same_mesh", tag);
    std::vector<DofMap> maps;
    for (auto& c : cs) maps.push_back(layout(c));
    audit(*m, fes->LocGlobMap(), maps, tag);
    for (unsigned c = 0; c < cs.size(); ++c) {
      const auto lay = layout(cs[c]);
      for (auto& [r, k] : lay) {
        // only types for which the component has functions
        MON_CHECK(fes->NumRefShapeFunctions(r, c) == k, "interior_functions", tag << " component " << c << " " << r);
        const auto* fe = fes->ShapeFunctionLayout(r, c);
        if (r == RefEl::kPoint()) continue;
        const bool want = cs[c].k == kH1 || cs[c].k == kTrace || (cs[c].k == kL2) == (r != RefEl::kSegment());
        MON_CHECK((fe != nullptr) == want, "layout_present", tag << " component " << c << " " << r);
        if (!fe || !want) continue;
        const int dim = r.Dimension(), p = cs[c].p, nn = r.NumNodes();
        MON_CHECK(fe->RefEl() == r, "layout_type", tag);
        if (p > 0 || cs[c].k != kL2) MON_CHECK(static_cast<int>(fe->Degree()) == p, "layout_degree", tag << " " << fe->Degree() << " expected " << p);
        unsigned total = 0;
        for (int cd = 0; cd <= dim; ++cd) {
          const RefEl sr = cd == dim ? RefEl::kPoint() : cd == dim - 1 ? (dim == 2 ? RefEl::kSegment() : RefEl::kPoint()) : r;
          const RefEl tr = cd == 0 ? r : sr;
          const unsigned cnt = lay.at(tr);
          MON_CHECK(fe->NumRefShapeFunctions(cd) == cnt, "functions_per_codim", tag << " component " << c << " " << r << " codim " << cd << " " << fe->NumRefShapeFunctions(cd) << " expected " << cnt);
          for (unsigned s = 0; s < r.NumSubEntities(cd); ++s) {
            MON_CHECK(fe->NumRefShapeFunctions(cd, s) == cnt, "functions_per_codim", tag);
            total += cnt;
          }
        }
        MON_REQUIRE(fe->NumRefShapeFunctions() == total, "function_count", tag << " component " << c << " " << r << " " << fe->NumRefShapeFunctions() << " expected " << total);
        // nodal basis; the functions span the polynomials they should
        const MatrixXd N = fe->EvaluationNodes();
        MON_REQUIRE(N.cols() == fe->NumEvaluationNodes() && N.cols() == total && N.rows() == dim, "nodes", tag << " component " << c << " " << r);
        const MatrixXd V = fe->EvalReferenceShapeFunctions(N);
        MON_CHECK((V - MatrixXd::Identity(total, total)).cwiseAbs().maxCoeff() < 1e-12, "cardinal", tag << " component " << c << " " << r);
        Eigen::Matrix<double, 1, Eigen::Dynamic> vals(total);
        for (unsigned k2 = 0; k2 < total; ++k2) vals(k2) = rng.real(-1, 1);
        const auto dofs = fe->NodalValuesToDofs(vals);
        MON_CHECK(dofs.cols() == vals.cols() && (dofs - vals).cwiseAbs().maxCoeff() < 1e-13, "nodal_values", tag << " component " << c << " " << r);
        if (cs[c].k == kTrace && dim == 2) {
          // lives on the sides only: nodes there, and all polynomials of the
          // degree are reproduced on every side
          const RefPoly q(rng, p, 2, nn == 4);
          for (unsigned k2 = 0; k2 < total; ++k2) vals(k2) = q(N.col(k2));
          for (int s = 0; s < nn; ++s) {
            VectorXd t(5);
            for (int a = 0; a < 5; ++a) t(a) = rng.real();
            const MatrixXd X = side_points(nn, s, t);
            const MatrixXd B = fe->EvalReferenceShapeFunctions(X);
            for (int a = 0; a < 5; ++a) MON_CHECK(std::abs((vals * B.col(a))(0) - q(X.col(a))) < 1e-11, "trace_reproduces", tag << " " << r << " side " << s);
            // restrictions coincide with those of the functions on segments
            const auto* fs = fes->ShapeFunctionLayout(RefEl::kSegment(), c);
            const MatrixXd S = fs->EvalReferenceShapeFunctions(MatrixXd(t.transpose()));
            MatrixXd want_B = MatrixXd::Zero(total, 5);
            want_B.row(s) = S.row(0);
            want_B.row((s + 1) % nn) = S.row(1);
            for (int k2 = 0; k2 < p - 1; ++k2) want_B.row(nn + s * (p - 1) + k2) = S.row(2 + k2);
            MON_CHECK((B - want_B).cwiseAbs().maxCoeff() < 1e-12, "trace_restriction", tag << " " << r << " side " << s);
          }
        } else {
          const RefPoly q(rng, p, dim, nn == 4);
          for (unsigned k2 = 0; k2 < total; ++k2) vals(k2) = q(N.col(k2));
          const MatrixXd X = ref_points(rng, nn, 6);
          const MatrixXd B = fe->EvalReferenceShapeFunctions(X), D = fe->GradientsReferenceShapeFunctions(X);
          MON_REQUIRE(B.rows() == total && B.cols() == 6 && D.rows() == total && D.cols() == 6 * dim, "evaluation_shape", tag << " component " << c << " " << r << " " << B.rows() << "x" << B.cols() << " " << D.rows() << "x" << D.cols());
          for (int a = 0; a < 6; ++a) {
            MON_CHECK(std::abs((vals * B.col(a))(0) - q(X.col(a))) < 1e-11, "reproduces", tag << " component " << c << " " << r);
            for (int b = 0; b < dim; ++b) {
              const double want_d = stencil5([&](const VectorXd& y) { return VectorXd::Constant(1, q(y)); }, X.col(a), b)(0);
              MON_CHECK(std::abs((vals * D.col(dim * a + b))(0) - want_d) < 1e-9, "gradients", tag << " component " << c << " " << r);
            }
          }
        }
      }
      // the component's own space numbers the block
      if (cs[c].k != kFlux && cs[c].k != kL2) {
        const auto cf = fes->ComponentFESpace(c);
        MON_CHECK(cf->LocGlobMap().NumDofs() == fes->LocGlobMap().NumDofs(c), "component_space", tag);
        for (const Entity* e : m->Entities(0)) {
          const auto a = cf->LocGlobMap().GlobalDofIndices(*e), b = fes->LocGlobMap().ComponentDofHandler(c).GlobalDofIndices(*e);
          MON_CHECK(std::equal(a.begin(), a.end(), b.begin(), b.end()), "component_space", tag);
        }
      }
      event(std::string("component_") + "HLFT"[cs[c].k]);
    }
    // global functions: single-valued traces, cells uncoupled
    const auto& h = fes->LocGlobMap();
    const VectorXd x = rand_vec<double>(rng, h.NumDofs());
    for (unsigned c = 0; c < cs.size(); ++c) {
      if (cs[c].k == kL2) {
        std::vector<int> uses(h.NumDofs(), 0);
        for (const Entity* e : m->Entities(0)) {
          const auto G = h.GlobalDofIndices(*e);
          const unsigned s = h.LocalStartIndex(*e, c);
          for (unsigned k = 0; k < h.NumLocalDofs(*e, c); ++k) uses[G[s + k]]++;
        }
        for (unsigned g = h.Offset(c); g < h.Offset(c) + h.NumDofs(c); ++g) MON_CHECK(uses[g] == 1, "uncoupled", tag << " dof " << g << " in " << uses[g] << " cells");
      } else if (cs[c].k != kFlux) {
        for (const Entity* e : m->Entities(0)) {
          const auto G = h.GlobalDofIndices(*e);
          const unsigned s = h.LocalStartIndex(*e, c);
          const int nc = e->RefEl().NumNodes();
          for (int side = 0; side < nc; ++side) {
            const Entity& ed = *e->SubEntities(1)[side];
            const auto GE = h.GlobalDofIndices(ed);
            const unsigned se = h.LocalStartIndex(ed, c);
            VectorXd t(3);
            t << rng.real(), rng.real(), 0.5;
            const bool neg = e->RelativeOrientations()[side] == lf::mesh::Orientation::negative;
            const VectorXd te = neg ? VectorXd(VectorXd::Ones(3) - t) : t;
            const MatrixXd B = fes->ShapeFunctionLayout(e->RefEl(), c)->EvalReferenceShapeFunctions(side_points(nc, side, t));
            const MatrixXd S = fes->ShapeFunctionLayout(RefEl::kSegment(), c)->EvalReferenceShapeFunctions(MatrixXd(te.transpose()));
            for (int a = 0; a < 3; ++a) {
              double u = 0, v = 0;
              for (int k = 0; k < B.rows(); ++k) u += x(G[s + k]) * B(k, a);
              for (int k = 0; k < S.rows(); ++k) v += x(GE[se + k]) * S(k, a);
              MON_CHECK(std::abs(u - v) < 1e-11, "single_valued", tag << " component " << c << " cell " << m->Index(*e) << " side " << side << " " << u << " " << v);
            }
          }
        }
      }
    }
    sig(hcomb(d.hash(), hash_str(all)));
    sample(tag);
    if (round > 0) event("factory_reused");
  }
}

// ---- D02 -----------------------------------------------------------------
const lf::quad::QuadRule& lib_rule(RefEl r, int degree) {
  static std::map<std::pair<int, int>, lf::quad::QuadRule> m;
  auto it = m.find({(int)r.Id(), degree});
  if (it == m.end()) it = m.emplace(std::make_pair((int)r.Id(), degree), lf::quad::make_QuadRule(r, degree)).first;
  return it->second;
}
// outer normals of a straight polygon
MatrixXd normals_of(const MatrixXd& P) {
  const int n = P.cols();
  std::vector<int> v(n);
  for (int i = 0; i < n; ++i) v[i] = i;
  const double a = poly_area(P, v);
  MatrixXd N(2, n);
  for (int i = 0; i < n; ++i) {
    const Vector2d t = (P.col((i + 1) % n) - P.col(i)).normalized();
    N.col(i) << t(1), -t(0);
    if (a < 0) N.col(i) *= -1;
  }
  return N;
}
MatrixXd corners_of(const Entity& e) { return e.Geometry()->Global(e.RefEl().NodeCoords()); }
struct Signs {
  std::vector<int> owner;  // cell of the highest number
  explicit Signs(const lf::mesh::Mesh& m) : owner(m.NumEntities(1), -1) {
    for (unsigned c = 0; c < m.NumEntities(0); ++c)
      for (const Entity* e : m.EntityByIndex(0, c)->SubEntities(1)) owner[m.Index(*e)] = c;
  }
};
using SFun = std::function<double(const VectorXd&)>;
using VFun = std::function<Vector2d(const VectorXd&)>;
using TFun = std::function<Eigen::Matrix2d(const VectorXd&)>;
struct Coefs {
  SFun s;
  VFun v1, v2;
  TFun t;
  bool tensor = false;
};
enum Kind { kDiff, kConv, kReac, kFl, kTr };
struct Blk {
  Kind k;
  unsigned u, v;
  Coefs c;
};
Coefs random_coefs(Rng& r, const Desc& d) {
  Coefs c;
  const double a = r.real(-2, 2), b = r.real(-2, 2), w = r.coin(0.35) ? 0 : 1;
  const VectorXd k = VectorXd::NullaryExpr(2, [&](Eigen::Index) { return r.real(-1, 1); }) / d.diam();
  c.s = [=](const VectorXd& x) { return a + w * std::sin(k.dot(x)); };
  const Vector2d p(r.real(-1, 1), r.real(-1, 1)), q(r.real(-1, 1), r.real(-1, 1));
  c.v1 = [=](const VectorXd& x) { return Vector2d(p + w * std::cos(k.dot(x)) * q); };
  const bool zero = r.coin(0.3);
  c.v2 = [=](const VectorXd& x) { return Vector2d((zero ? 0.0 : 1.0) * (q + w * b * std::sin(k.dot(x)) * p)); };
  Eigen::Matrix2d A;
  A << r.real(-1, 1), r.real(-1, 1), r.real(-1, 1), r.real(-1, 1);
  c.t = [=](const VectorXd& x) { return Eigen::Matrix2d((1.5 + w * std::sin(k.dot(x))) * A); };
  c.tensor = r.coin();
  return c;
}
// one block on one cell with rules of the given number of points; fluxes are
// evaluated in the parametrisation of the edge itself
// columns: dofs of the component in the order of the local index list
Res block_of(const Entity& cell, const lf::mesh::Mesh& m, const Signs& sg, const Product& U, const Product& V, const Blk& b, bool exact) {
  const int nc = cell.RefEl().NumNodes();
  const auto* fv = V.ShapeFunctionLayout(cell.RefEl(), b.v);
  const auto& hu = U.LocGlobMap();
  const int nu = hu.NumLocalDofs(cell, b.u), nv = fv->NumRefShapeFunctions();
  Res r;
  r.M = MatrixXcd::Zero(nv, nu);
  const auto* fu = U.ShapeFunctionLayout(b.k == kFl ? RefEl::kSegment() : cell.RefEl(), b.u);
  const int deg = fu->Degree() + fv->Degree();
  auto add = [&](double w, const MatrixXd& M) {
    r.M += (w * M).cast<cplx>();
    r.scale += std::abs(w) * M.cwiseAbs().maxCoeff();
  };
  if (b.k == kDiff || b.k == kConv || b.k == kReac) {
    const MatrixXd x = exact ? rule(nc, deg / 2 + 9).x : lib_rule(cell.RefEl(), deg).Points();
    const VectorXd w = exact ? rule(nc, deg / 2 + 9).w : lib_rule(cell.RefEl(), deg).Weights();
    const At at = shape_at(cell, x);
    const MatrixXd bu = fu->EvalReferenceShapeFunctions(x), bv = fv->EvalReferenceShapeFunctions(x);
    const MatrixXd du = fu->GradientsReferenceShapeFunctions(x), dv = fv->GradientsReferenceShapeFunctions(x);
    for (int k = 0; k < x.cols(); ++k) {
      const double wk = w(k) * at.det(k);
      const MatrixXd gu = at.G[k] * du.middleCols(2 * k, 2).transpose(), gv = at.G[k] * dv.middleCols(2 * k, 2).transpose();
      const VectorXd X = at.X.col(k);
      if (b.k == kDiff) {
        const Eigen::Matrix2d A = b.c.tensor ? b.c.t(X) : Eigen::Matrix2d(b.c.s(X) * Eigen::Matrix2d::Identity());
        add(wk, gv.transpose() * (A * gu));
      } else if (b.k == kConv) {
        add(wk, (gv.transpose() * b.c.v1(X)) * bu.col(k).transpose());
        add(wk, bv.col(k) * (gu.transpose() * b.c.v2(X)).transpose());
      } else {
        add(wk * b.c.s(X), bv.col(k) * bu.col(k).transpose());
      }
    }
    return r;
  }
  const MatrixXd t = exact ? rule(2, deg / 2 + 9).x : lib_rule(RefEl::kSegment(), deg).Points();
  const VectorXd w = exact ? rule(2, deg / 2 + 9).w : lib_rule(RefEl::kSegment(), deg).Weights();
  const MatrixXd N = normals_of(corners_of(cell));
  int col = 0;
  for (int s = 0; s < nc; ++s) {
    const Entity& e = *cell.SubEntities(1)[s];
    const MatrixXd P = side_points(nc, s, t.row(0).transpose());
    const MatrixXd bv = fv->EvalReferenceShapeFunctions(P);
    const MatrixXd X = cell.Geometry()->Global(P);
    const double len = (corners_of(cell).col((s + 1) % nc) - corners_of(cell).col(s)).norm();
    if (b.k == kTr) {
      const MatrixXd bu = fu->EvalReferenceShapeFunctions(P);
      for (int k = 0; k < t.cols(); ++k) add(w(k) * len * N.col(s).dot(b.c.v1(X.col(k))), bv.col(k) * bu.col(k).transpose());
    } else {
      const bool neg = cell.RelativeOrientations()[s] == lf::mesh::Orientation::negative;
      const MatrixXd te = neg ? MatrixXd(MatrixXd::Ones(1, t.cols()) - t) : t;
      MatrixXd bu = fu->EvalReferenceShapeFunctions(te);
      // the local index list runs backwards on such sides
      if (neg) bu = bu.colwise().reverse().eval();
      const int n = bu.rows();
      const double sgn = sg.owner[m.Index(e)] == static_cast<int>(m.Index(cell)) ? 1 : -1;
      for (int k = 0; k < t.cols(); ++k) {
        MatrixXd M = MatrixXd::Zero(nv, nu);
        M.middleCols(col, n) = bv.col(k) * bu.col(k).transpose();
        add(w(k) * len * sgn * b.c.s(X.col(k)), M);
      }
      col += n;
    }
  }
  return r;
}
template <class B>
void add_block(B& bl, const Blk& b, bool constant) {
  using lf::mesh::utils::MeshFunctionConstant;
  const VectorXd z = VectorXd::Zero(2);
  switch (b.k) {
    case kDiff:
      if (b.c.tensor)
        bl.AddDiffusionElementMatrixProvider(b.u, b.v, MeshFunctionGlobal(b.c.t));
      else if (constant)
        bl.AddDiffusionElementMatrixProvider(b.u, b.v, MeshFunctionConstant<double>(b.c.s(z)));
      else
        bl.AddDiffusionElementMatrixProvider(b.u, b.v, MeshFunctionGlobal(b.c.s));
      break;
    case kConv:
      if (constant)
        bl.AddConvectionElementMatrixProvider(b.u, b.v, MeshFunctionConstant<Vector2d>(b.c.v1(z)), MeshFunctionConstant<Vector2d>(b.c.v2(z)));
      else
        bl.AddConvectionElementMatrixProvider(b.u, b.v, MeshFunctionGlobal(b.c.v1), MeshFunctionGlobal(b.c.v2));
      break;
    case kReac:
      if (constant)
        bl.AddReactionElementMatrixProvider(b.u, b.v, MeshFunctionConstant<double>(b.c.s(z)));
      else
        bl.AddReactionElementMatrixProvider(b.u, b.v, MeshFunctionGlobal(b.c.s));
      break;
    case kFl:
      if (constant)
        bl.AddFluxElementMatrixProvider(b.u, b.v, MeshFunctionConstant<double>(b.c.s(z)));
      else
        bl.AddFluxElementMatrixProvider(b.u, b.v, MeshFunctionGlobal(b.c.s));
      break;
    default:
      if (constant)
        bl.AddTraceElementMatrixProvider(b.u, b.v, MeshFunctionConstant<Vector2d>(b.c.v1(z)));
      else
        bl.AddTraceElementMatrixProvider(b.u, b.v, MeshFunctionGlobal(b.c.v1));
  }
}
void freeze(Blk& b) {
  const VectorXd z = VectorXd::Zero(2);
  const double s = b.c.s(z);
  const Vector2d v1 = b.c.v1(z), v2 = b.c.v2(z);
  const Eigen::Matrix2d t = b.c.t(z);
  b.c.s = [s](const VectorXd&) { return s; };
  b.c.v1 = [v1](const VectorXd&) { return v1; };
  b.c.v2 = [v2](const VectorXd&) { return v2; };
  b.c.t = [t](const VectorXd&) { return t; };
}
Opts planar(Rng& rng, bool straight) {
  Opts o;
  o.dw = 2;
  o.max_cells = thorough() ? 12 : 7;
  if (straight) o.curved = false;
  if (rng.coin(0.3)) o.affine_only = true;
  return o;
}

void blocks(Rng& rng, u64) {
  const bool sides = rng.coin(0.7);
  const Desc d = random_desc(rng, planar(rng, sides));
  const auto m = build(d);
  const Signs sg(*m);
  Factory fu(m), fv(m);
  std::vector<CompSpec> cu, cv;
  const int nu = rng.uni(1, 4), nv = rng.uni(1, 3);
  for (int i = 0; i < nu; ++i) {
    cu.push_back(random_comp(rng, sides ? -1 : rng.uni(0, 1)));
    (void)add_to(fu, cu.back());
  }
  for (int i = 0; i < nv; ++i) {
    cv.push_back(random_comp(rng, rng.coin(0.7) ? kL2 : kH1));
    (void)add_to(fv, cv.back());
  }
  const auto U = fu.Build(), V = fv.Build();
  dpg::ProductElementMatrixProviderBuilder<double> bb(U, V), bg(V, V);
  dpg::ProductElementVectorProviderBuilder<double> bl(V);
  std::vector<Blk> bs;
  std::string names;
  const int nb = rng.uni(1, 6);
  for (int i = 0; i < nb; ++i) {
    Blk b;
    b.u = rng.uni(0, nu - 1);
    b.v = rng.uni(0, nv - 1);
    const Comp k = cu[b.u].k;
    b.k = k == kFlux ? kFl : k == kTrace ? kTr : static_cast<Kind>(rng.uni(0, sides && rng.coin(0.2) ? 4 : 2));
    if (b.k == kFl && k != kFlux) b.k = kTr;
    b.c = random_coefs(rng, d);
    const bool cst = rng.coin(0.3);
    if (cst) freeze(b);
    add_block(bb, b, cst);
    bs.push_back(b);
    static const char* nm[] = {"diffusion", "convection", "reaction", "flux", "trace"};
    names += std::string(nm[b.k]) + (cst ? "c" : "") + std::to_string(b.u) + std::to_string(b.v) + " ";
    event(std::string("block_") + nm[b.k]);
  }
  // Gramian: reaction + diffusion on every component
  std::vector<Blk> gs;
  for (int i = 0; i < nv; ++i)
    for (Kind k : {kReac, kDiff}) {
      Blk b;
      b.k = k;
      b.u = b.v = i;
      b.c = random_coefs(rng, d);
      freeze(b);
      const double a = rng.real(0.5, 2) / (k == kDiff ? 1 : d.diam() * d.diam());
      b.c.s = [a](const VectorXd&) { return a; };
      b.c.tensor = false;
      add_block(bg, b, true);
      gs.push_back(b);
    }
  std::vector<std::pair<unsigned, SFun>> ls;
  for (int i = 0, n = rng.uni(1, 3); i < n; ++i) {
    ls.push_back({static_cast<unsigned>(rng.uni(0, nv - 1)), random_coefs(rng, d).s});
    bl.AddLoadElementVectorProvider(ls.back().first, MeshFunctionGlobal(ls.back().second));
  }
  const auto B = bb.Build();
  const auto G = bg.Build();
  const auto L = bl.Build();
  dpg::DpgElementMatrixProvider<double> dm(B, G);
  dpg::DpgElementVectorProvider<double> dv(L, B, G);
  const auto& hu = U->LocGlobMap();
  const auto& hv = V->LocGlobMap();
  const std::string tag = describe(d) + " / " + str_of(cu) + "x " + str_of(cv) + "/ " + names;
  const VectorXd x = rand_vec<double>(rng, hu.NumDofs());
  double total = 0;
  const auto est = dpg::ElementErrorEstimators<double>(hu, B, G, L, x);
  bool finite = true;
  std::vector<const Entity*> cells;
  for (const Entity* c : m->Entities(0)) cells.push_back(c);
  for (const Entity* c : cells) {
    const unsigned idx = m->Index(*c);
    auto whole = [&](const std::vector<Blk>& v, const Product& T, bool exact) {
      Res r;
      r.M = MatrixXcd::Zero(hv.NumLocalDofs(*c), T.LocGlobMap().NumLocalDofs(*c));
      for (auto& b : v) {
        const Res q = block_of(*c, *m, sg, T, *V, b, exact);
        r.M.block(hv.LocalStartIndex(*c, b.v), T.LocGlobMap().LocalStartIndex(*c, b.u), q.M.rows(), q.M.cols()) += q.M;
        r.scale += q.scale;
      }
      return r;
    };
    auto judge = [&](const MatrixXd& got, const Res& ex, const MatrixXcd& emu, const char* key) {
      MON_REQUIRE(got.rows() == ex.M.rows() && got.cols() == ex.M.cols(), "shape_of_result", tag << " " << key << " " << got.rows() << "x" << got.cols() << " expected " << ex.M.rows() << "x" << ex.M.cols());
      double q = 0;
      const bool ok = close(got.cast<cplx>(), ex, emu, &q);
      note(std::string(key) + "_err_over_tol", q);
      int i = 0, j = 0;
      if (got.size()) (got.cast<cplx>() - ex.M).cwiseAbs().maxCoeff(&i, &j);
      MON_CHECK(ok, key, tag << " cell " << idx << " entry (" << i << "," << j << ") " << got(i, j) << " expected " << ex.M(i, j).real() << " (scale " << ex.scale << ")");
      if ((emu - ex.M).cwiseAbs().maxCoeff() <= 1e-12 * ex.scale) event(std::string(key) + "_exact");
    };
    MON_CHECK(B->isActive(*c) && L->isActive(*c) && dm.isActive(*c) && dv.isActive(*c), "active", tag);
    const MatrixXd b = B->Eval(*c), g = G->Eval(*c);
    judge(b, whole(bs, *U, true), whole(bs, *U, false).M, "blocks");
    judge(g, whole(gs, *V, true), whole(gs, *V, false).M, "gramian");
    // load
    Res l, le;
    l.M = le.M = MatrixXcd::Zero(hv.NumLocalDofs(*c), 1);
    for (auto& [v, f] : ls) {
      const auto* fe = V->ShapeFunctionLayout(c->RefEl(), v);
      const int deg = 2 * fe->Degree();
      const Rule& R = rule(c->RefEl().NumNodes(), fe->Degree() + 9);
      const Res a = form_vector(*c, *fe, MeshFunctionGlobal(f), R.x, R.w);
      const Res e = form_vector(*c, *fe, MeshFunctionGlobal(f), lib_rule(c->RefEl(), deg).Points(), lib_rule(c->RefEl(), deg).Weights());
      l.M.middleRows(hv.LocalStartIndex(*c, v), a.M.rows()) += a.M;
      le.M.middleRows(hv.LocalStartIndex(*c, v), a.M.rows()) += e.M;
      l.scale += a.scale;
    }
    const VectorXd lv = L->Eval(*c);
    judge(lv, l, le.M, "load");
    // condensed
    const MatrixXd A = dm.Eval(*c);
    const VectorXd f = dv.Eval(*c);
    MON_REQUIRE(A.rows() == b.cols() && A.cols() == b.cols() && f.size() == b.cols(), "shape_of_result", tag);
    const Eigen::SelfAdjointEigenSolver<MatrixXd> es(g);
    const double cond = es.eigenvalues().maxCoeff() / es.eigenvalues().minCoeff();
    MON_CHECK(es.eigenvalues().minCoeff() > 0, "gramian_definite", tag << " cell " << idx);
    if (!(cond < 1e9)) continue;
    const MatrixXd W = es.eigenvalues().cwiseSqrt().cwiseInverse().asDiagonal() * es.eigenvectors().transpose();
    const MatrixXd Wb = W * b;
    const VectorXd Wl = W * lv;
    const double sA = Wb.squaredNorm() + 1e-300, tol = 1e-13 * cond + 1e-11;
    MON_CHECK((A - Wb.transpose() * Wb).cwiseAbs().maxCoeff() <= tol * sA, "condensed_matrix", tag << " cell " << idx << " cond " << cond);
    MON_CHECK((A - A.transpose()).cwiseAbs().maxCoeff() <= tol * sA, "condensed_symmetric", tag << " cell " << idx);
    const MatrixXd As = 0.5 * (A + A.transpose());
    MON_CHECK(Eigen::SelfAdjointEigenSolver<MatrixXd>(As).eigenvalues().minCoeff() >= -tol * sA, "condensed_semidefinite", tag << " cell " << idx);
    MON_CHECK((f - Wb.transpose() * Wl).cwiseAbs().maxCoeff() <= tol * (Wb.norm() * Wl.norm() + 1e-300), "condensed_vector", tag << " cell " << idx);
    // error estimator
    const auto I = hu.GlobalDofIndices(*c);
    VectorXd xl(b.cols());
    for (int k = 0; k < xl.size(); ++k) xl(k) = x(I[k]);
    const double want = (W * (lv - b * xl)).norm();
    MON_CHECK(std::abs(est(*c) - want) <= tol * 100 * (Wl.norm() + (Wb * xl).norm() + want), "estimator", tag << " cell " << idx << " " << est(*c) << " expected " << want);
    total += want * want;
    finite = finite && cond < 1e6;
  }
  if (finite) {
    const double e = dpg::EvalPosteriorError<double>(m, est);
    double s2 = 0;
    for (const Entity* c : cells) s2 += est(*c) * est(*c);
    MON_CHECK(std::abs(e - std::sqrt(s2)) <= 1e-12 * (1 + e), "total_estimate", tag << " " << e << " expected " << std::sqrt(s2));
  }
  (void)total;
  sig(hcomb(d.hash(), hash_str(names + str_of(cu) + str_of(cv))));
  sample(tag);
}

// a formulation is satisfied by the exact polynomial solution
void consistency(Rng& rng, u64 i) {
  Opts o = planar(rng, true);
  o.affine_only = true;
  const Desc d = random_desc(rng, o);
  const auto m = build(d);
  const Signs sg(*m);
  const bool primal = i % 2 == 0;
  const int p = rng.uni(primal ? 1 : 0, 3);
  const PhysPoly u(rng, p, d.P);
  Eigen::Matrix2d A;
  A << 1.5, rng.real(-0.5, 0.5), rng.real(-0.5, 0.5), rng.real(1, 2);
  if (!primal) A.setIdentity();
  const double gam = rng.real(0, 2) / (d.diam() * d.diam());
  Factory fu(m), fv(m);
  // decoys move the offsets
  const bool decoy = rng.coin();
  const unsigned skip = decoy ? fu.AddL2Component(rng.uni(0, 2)) : 0;
  (void)skip;
  unsigned cu, cq, ct = 0, csx = 0, csy = 0, tv, tx = 0, ty = 0;
  MeshFunctionConstant<double> one(1.0), minus(-1.0), g(gam);
  MeshFunctionConstant<Vector2d> ex(Vector2d(1, 0)), ey(Vector2d(0, 1)), zero(Vector2d(0, 0)), mex(Vector2d(-1, 0)), mey(Vector2d(0, -1));
  if (primal) {
    cu = fu.AddH1Component(p);
    cq = fu.AddFluxComponent(rng.uni(p - 1, 3));
    tv = fv.AddL2Component(3);
  } else {
    cq = fu.AddFluxComponent(rng.uni(std::max(p - 1, 0), 3));
    csx = fu.AddL2Component(std::max(p - 1, 0));
    cu = fu.AddL2Component(p);
    csy = fu.AddL2Component(rng.uni(std::max(p - 1, 0), 3));
    ct = fu.AddTraceComponent(std::max(p, 1));
    tx = fv.AddL2Component(rng.uni(0, 3));
    tv = fv.AddL2Component(rng.uni(0, 3));
    ty = fv.AddL2Component(rng.uni(0, 3));
  }
  const auto U = fu.Build(), V = fv.Build();
  dpg::ProductElementMatrixProviderBuilder<double> bb(U, V);
  if (primal) {
    bb.AddDiffusionElementMatrixProvider(cu, tv, MeshFunctionConstant<Eigen::Matrix2d>(A));
    bb.AddReactionElementMatrixProvider(cu, tv, g);
    bb.AddFluxElementMatrixProvider(cq, tv, minus);
  } else {
    bb.AddReactionElementMatrixProvider(csx, tx, one)
        .AddReactionElementMatrixProvider(csy, ty, one)
        .AddConvectionElementMatrixProvider(cu, tx, ex, zero)
        .AddConvectionElementMatrixProvider(cu, ty, ey, zero)
        .AddTraceElementMatrixProvider(ct, tx, mex)
        .AddTraceElementMatrixProvider(ct, ty, mey)
        .AddConvectionElementMatrixProvider(csx, tv, ex, zero)
        .AddConvectionElementMatrixProvider(csy, tv, ey, zero)
        .AddReactionElementMatrixProvider(cu, tv, g)
        .AddFluxElementMatrixProvider(cq, tv, minus);
  }
  const auto B = bb.Build();
  const auto& hu = U->LocGlobMap();
  const std::string tag = describe(d) + (primal ? " primal p=" : " ultraweak p=") + std::to_string(p);
  VectorXd x = rand_vec<double>(rng, hu.NumDofs());
  auto set = [&](const Entity& e, unsigned c, const ScalarReferenceFiniteElement<double>* fe, const std::function<double(const VectorXd&)>& f) {
    const MatrixXd X = e.Geometry()->Global(fe->EvaluationNodes());
    const auto I = hu.GlobalDofIndices(e);
    const unsigned s = hu.LocalStartIndex(e, c);
    for (int k = 0; k < X.cols(); ++k) x(I[s + k]) = f(X.col(k));
  };
  for (const Entity* c : m->Entities(0)) {
    set(*c, cu, U->ShapeFunctionLayout(c->RefEl(), cu), [&](const VectorXd& y) { return u(y); });
    if (!primal) {
      set(*c, csx, U->ShapeFunctionLayout(c->RefEl(), csx), [&](const VectorXd& y) { return u.grad(y)(0); });
      set(*c, csy, U->ShapeFunctionLayout(c->RefEl(), csy), [&](const VectorXd& y) { return u.grad(y)(1); });
      set(*c, ct, U->ShapeFunctionLayout(c->RefEl(), ct), [&](const VectorXd& y) { return u(y); });
    }
    const MatrixXd N = normals_of(corners_of(*c));
    for (unsigned s = 0; s < c->SubEntities(1).size(); ++s) {
      const Entity& e = *c->SubEntities(1)[s];
      if (sg.owner[m->Index(e)] != static_cast<int>(m->Index(*c))) continue;
      set(e, cq, U->ShapeFunctionLayout(RefEl::kSegment(), cq), [&](const VectorXd& y) { return N.col(s).dot(A * u.grad(y)); });
    }
  }
  // fluxes of degree p-1 are represented exactly; the load is integrated with
  // twice the degree of the test component: exact for f of that degree
  auto f = [&](const VectorXd& y) { return -u.div_grad(A, y) + gam * u(y); };
  for (const Entity* c : m->Entities(0)) {
    const MatrixXd b = B->Eval(*c);
    const auto I = hu.GlobalDofIndices(*c);
    VectorXd xl(b.cols());
    for (int k = 0; k < xl.size(); ++k) xl(k) = x(I[k]);
    VectorXd l = VectorXd::Zero(b.rows());
    const auto* fe = V->ShapeFunctionLayout(c->RefEl(), tv);
    const Res lr = form_vector(*c, *fe, MeshFunctionGlobal(f), rule(c->RefEl().NumNodes(), 12).x, rule(c->RefEl().NumNodes(), 12).w);
    l.segment(V->LocGlobMap().LocalStartIndex(*c, tv), lr.M.rows()) = lr.M.real();
    const VectorXd r = b * xl - l;
    const double sc = (b.cwiseAbs() * xl.cwiseAbs()).maxCoeff() + lr.scale + 1e-300;
    note("consistency_residual", r.cwiseAbs().maxCoeff() / sc);
    MON_CHECK(r.cwiseAbs().maxCoeff() <= 1e-10 * sc, "exact_solution", tag << " cell " << m->Index(*c) << " residual " << r.cwiseAbs().maxCoeff() << " scale " << sc);
  }
  event(primal ? "primal" : "ultraweak");
  sig(hcomb(d.hash(), p * 2 + primal));
  sample(tag);
}

void tools(Rng& rng, u64) {
  const Desc d = random_desc(rng, planar(rng, true));
  const auto m = build(d);
  const Signs sg(*m);
  const std::string tag = describe(d);
  const dpg::PrescribedSignProvider sp(m);
  std::vector<int> cnt(m->NumEntities(1), 0), sum(m->NumEntities(1), 0), only(m->NumEntities(1), 0);
  std::vector<Vector2d> out(m->NumEntities(1));
  for (const Entity* c : m->Entities(0)) {
    const MatrixXd N = dpg::OuterNormals(*c->Geometry());
    const MatrixXd W = normals_of(corners_of(*c));
    MON_REQUIRE(N.rows() == 2 && N.cols() == W.cols(), "normals_shape", tag);
    MON_CHECK((N - W).cwiseAbs().maxCoeff() < 1e-9, "outer_normal", tag << " cell " << m->Index(*c) << " " << mstr(N) << " expected " << mstr(W));
    for (unsigned s = 0; s < c->SubEntities(1).size(); ++s) {
      const Entity& e = *c->SubEntities(1)[s];
      const int v = sp.PrescribedSign(*c, e);
      MON_CHECK(v == 1 || v == -1, "sign_value", tag << " " << v);
      MON_CHECK(v == sp.PrescribedSign(*c, e), "sign_value", tag);
      cnt[m->Index(e)]++;
      sum[m->Index(e)] += v;
      out[m->Index(e)] = W.col(s);
    }
  }
  for (unsigned e = 0; e < cnt.size(); ++e) {
    if (cnt[e] == 2) MON_CHECK(sum[e] == 0, "signs_opposite", tag << " edge " << e << " sum " << sum[e]);
    if (cnt[e] == 1) MON_CHECK(sum[e] == 1, "sign_boundary", tag << " edge " << e << " sum " << sum[e]);
  }
  // in- and outflow
  const Coefs co = random_coefs(rng, d);
  const auto in = dpg::flagEntitiesOnInflowBoundary(m, MeshFunctionGlobal(co.v1));
  const auto outf = dpg::flagEntitiesOnOutflowBoundary(m, MeshFunctionGlobal(co.v1));
  for (const Entity* e : m->Entities(1)) {
    const unsigned i = m->Index(*e);
    const MatrixXd P = corners_of(*e);
    const double bn = co.v1(0.5 * (P.col(0) + P.col(1))).dot(out[i]);
    const bool bd = cnt[i] == 1;
    if (std::abs(bn) < 1e-10) continue;
    MON_CHECK(in(*e) == (bd && bn < 0), "inflow", tag << " edge " << i << " boundary " << bd << " beta.n " << bn);
    MON_CHECK(outf(*e) == (bd && bn > 0), "outflow", tag << " edge " << i << " boundary " << bd << " beta.n " << bn);
    event(bd ? bn < 0 ? "inflow_edge" : "outflow_edge" : "inner_edge");
  }
  // boundary rules
  for (RefEl r : {RefEl::kTria(), RefEl::kQuad()}) {
    const auto& q = lib_rule(RefEl::kSegment(), rng.uni(0, 9));
    const auto R = dpg::BoundaryQuadRule(r, q);
    const int n = r.NumNodes();
    MON_REQUIRE(static_cast<int>(R.size()) == n, "boundary_rule", r);
    for (int s = 0; s < n; ++s) {
      MON_CHECK((R[s].Points() - side_points(n, s, q.Points().row(0).transpose())).cwiseAbs().maxCoeff() < 1e-14, "boundary_rule", r << " side " << s);
      const double len = n == 3 && s == 1 ? std::sqrt(2.0) : 1.0;
      MON_CHECK((R[s].Weights() - len * q.Weights()).cwiseAbs().maxCoeff() < 1e-14, "boundary_rule", r << " side " << s);
    }
  }
  // non-convex and clockwise quadrilaterals
  for (int k = 0; k < 4; ++k) {
    MatrixXd P(2, 4);
    const double a = rng.real(0.05, 0.45);
    P << 0, 1, a, 0, 0, 0, a * rng.real(0.5, 1.5), 1;
    if (P(0, 2) + P(1, 2) > 0.95) continue;  // reflex corner
    const double w = rng.real(0, 6.28);
    Eigen::Matrix2d Q;
    Q << std::cos(w), -std::sin(w), std::sin(w), std::cos(w);
    if (rng.coin()) Q.col(0) *= -1;
    P = (rng.real(0.1, 10) * Q * P).eval();
    MatrixXd S(2, 4);
    const int r0 = rng.uni(0, 3);
    for (int j = 0; j < 4; ++j) S.col(j) = P.col((j + r0) % 4);
    const MatrixXd N = dpg::OuterNormals(lf::geometry::QuadO1(S)), W = normals_of(S);
    MON_CHECK((N - W).cwiseAbs().maxCoeff() < 1e-9, "outer_normal_nonconvex", mstr(S) << " " << mstr(N) << " expected " << mstr(W));
  }
  // essential conditions of traces and fluxes
  {
    Factory f(m);
    std::vector<CompSpec> cs;
    for (int i = rng.uni(0, 2); i > 0; --i) {
      cs.push_back(random_comp(rng));
      (void)add_to(f, cs.back());
    }
    const CompSpec T{rng.coin() ? kTrace : kH1, rng.uni(1, 3)}, F{kFlux, rng.uni(0, 3)};
    unsigned ct, cf;
    if (rng.coin()) {
      ct = add_to(f, T);
      cf = add_to(f, F);
    } else {
      cf = add_to(f, F);
      ct = add_to(f, T);
    }
    if (rng.coin()) (void)add_to(f, random_comp(rng));
    const auto fes = f.Build();
    const auto& h = fes->LocGlobMap();
    std::vector<bool> dir(m->NumEntities(1)), neu(m->NumEntities(1));
    for (unsigned e = 0; e < dir.size(); ++e) {
      dir[e] = rng.coin(0.4);
      neu[e] = rng.coin(0.4);
    }
    const PhysPoly g(rng, T.p, d.P), hh(rng, F.p, d.P);
    auto gf = [&](const VectorXd& y) { return g(y); };
    auto hf = [&](const VectorXd& y) { return hh(y); };
    const std::string t2 = tag + " trace " + std::to_string(T.p) + " flux " + std::to_string(F.p);
    std::vector<std::pair<bool, double>> ess;
    if (!no_throw("essential", [&] {
          ess = dpg::InitEssentialConditionsFromFunctions(
              *fes, ct, cf, [&](const Entity& e) { return static_cast<bool>(dir[m->Index(e)]); }, [&](const Entity& e) { return static_cast<bool>(neu[m->Index(e)]); }, MeshFunctionGlobal(gf), MeshFunctionGlobal(hf));
        }))
      throw CaseAborted{};
    MON_REQUIRE(ess.size() == h.NumDofs(), "essential_size", t2);
    std::vector<int> fixed(h.NumDofs(), 0);
    for (const Entity* e : m->Entities(1))
      for (unsigned c : {ct, cf}) {
        if (!(c == ct ? dir : neu)[m->Index(*e)]) continue;
        const auto* fe = fes->ShapeFunctionLayout(RefEl::kSegment(), c);
        const MatrixXd X = e->Geometry()->Global(fe->EvaluationNodes());
        const auto I = h.GlobalDofIndices(*e);
        const unsigned s = h.LocalStartIndex(*e, c);
        for (int k = 0; k < X.cols(); ++k) {
          fixed[I[s + k]] = 1;
          const double want = c == ct ? g(X.col(k)) : hh(X.col(k));
          MON_CHECK(ess[I[s + k]].first && std::abs(ess[I[s + k]].second - want) < 1e-9, "essential_value", t2 << " dof " << I[s + k] << " " << ess[I[s + k]].second << " expected " << want);
        }
      }
    for (unsigned k = 0; k < h.NumDofs(); ++k) MON_CHECK(ess[k].first == (fixed[k] == 1), "essential_flag", t2 << " dof " << k);
    must_fail("essential_same", "the same component twice", [&] {
      (void)dpg::InitEssentialConditionsFromFunctions(
          *fes, ct, ct, [](const Entity&) { return true; }, [](const Entity&) { return true; }, MeshFunctionGlobal(gf), MeshFunctionGlobal(hf));
    });
  }
  sig(d.hash());
  sample(tag);
}
}  // namespace

void mon::register_all() {
  stream("D01", "handlers", 200, 6000, handlers);
  stream("D01", "factory", 150, 5000, factory);
  stream("D02", "blocks", 150, 5000, blocks);
  stream("D02", "consistency", 120, 4000, consistency);
  stream("D02", "tools", 150, 5000, tools);
  expect("D01", {"index_list", "one_owner", "single_valued", "uncoupled", "trace_restriction", "factory_reused", "component_H", "component_L", "component_F", "component_T"});
  expect("D02", {"blocks_exact", "block_flux", "block_trace", "block_convection", "condensed_matrix", "estimator", "primal", "ultraweak", "signs_opposite", "outer_normal_nonconvex", "inflow_edge", "outflow_edge", "essential_value"});
}
