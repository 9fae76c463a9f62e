// U02: edge mass matrices and edge load vectors.
#include "ell.h"

using namespace mon;
using namespace ell;

namespace {
const lf::quad::QuadRule& seg_rule(int degree) {
  static std::map<int, lf::quad::QuadRule> m;
  auto it = m.find(degree);
  if (it == m.end()) it = m.emplace(degree, lf::quad::make_QuadRule(RefEl::kSegment(), degree)).first;
  return it->second;
}
// selected edges
struct Selection {
  std::string name;
  std::vector<bool> on;
};
Selection selection(Rng& r, const lf::mesh::Mesh& m) {
  Selection s;
  const int k = r.uni(0, 4);
  s.on.assign(m.NumEntities(1), k == 0);
  s.name = k == 0 ? "all" : k == 1 ? "boundary" : k == 2 ? "random" : k == 3 ? "one" : "halfplane";
  if (k == 1) {
    // own count of adjacent cells
    std::vector<int> n(s.on.size(), 0);
    for (const Entity* c : m.Entities(0))
      for (const Entity* e : c->SubEntities(1)) ++n[m.Index(*e)];
    for (std::size_t i = 0; i < n.size(); ++i) s.on[i] = n[i] == 1;
  }
  if (k == 2)
    for (std::size_t i = 0; i < s.on.size(); ++i) s.on[i] = r.coin();
  if (k == 3) s.on[r.uni(0, (int)s.on.size() - 1)] = true;
  if (k == 4) {
    VectorXd x0 = lf::geometry::Corners(*m.EntityByIndex(1, 0)->Geometry()).col(0);
    for (const Entity* e : m.Entities(1)) s.on[m.Index(*e)] = lf::geometry::Corners(*e->Geometry()).rowwise().mean()(0) < x0(0);
  }
  return s;
}
template <class M>
void judge(const std::string& tag, const M& got, const Res& exact, const MatrixXcd& emu, const char* key, const Entity& e, unsigned idx) {
  const MatrixXcd g = got.template cast<cplx>();
  MON_REQUIRE(g.rows() == exact.M.rows() && g.cols() == exact.M.cols(), "shape_of_result", tag << " " << key << " " << g.rows() << "x" << g.cols());
  int i = 0, j = 0;
  (g - exact.M).cwiseAbs().maxCoeff(&i, &j);
  MON_CHECK(close(g, exact, emu), key, tag << " edge " << idx << " entry (" << i << "," << j << ") " << g(i, j) << " expected " << exact.M(i, j) << " (scale " << exact.scale << ")");
  if ((emu - exact.M).cwiseAbs().maxCoeff() <= 1e-12 * exact.scale) event("exact_edges");
  (void)e;
}

// local matrices and vectors, and the assembled forms against integrals over
// the sides of adjacent cells
template <class S, bool Uniform>
void edges(Rng& rng, u64 i) {
  Opts o;
  o.max_cells = thorough() ? 16 : 9;
  const Desc d = random_desc(rng, o);
  const auto m = build(d);
  const int pl = 1 + i % 3;
  std::shared_ptr<const lf::uscalfe::UniformScalarFESpace<S>> usp;
  Space<S> sp;
  if constexpr (Uniform) {
    usp = lagrange_space<S>(m, pl);
    sp.sp = usp;
    sp.pmin = sp.pmax = pl;
    sp.lagrange = true;
    sp.name = "lagrange" + std::to_string(pl);
  } else {
    sp = random_space<S>(rng, m, thorough() ? 9 : 6);
  }
  const Selection sel = selection(rng, *m);
  const lf::mesh::Mesh* mp = m.get();
  auto pred = [&sel, mp](const Entity& e) { return bool(sel.on[mp->Index(e)]); };
  lf::mesh::utils::CodimMeshDataSet<bool> flags(m, 1, false);
  for (const Entity* e : m->Entities(1)) flags(*e) = sel.on[m->Index(*e)];
  std::vector<const Entity*> es(m->Entities(1).begin(), m->Entities(1).end());
  rng.shuffle(es);
  if ((int)es.size() > (thorough() ? 20 : 10)) es.resize(thorough() ? 20 : 10);
  const lf::quad::QuadRule user = rng.coin(0.2) ? lf::quad::make_QuadRuleNodal(RefEl::kSegment()) : seg_rule(rng.uni(0, 9));

  // adjacency: one cell and local side of each edge, per cell
  struct Side {
    const Entity* cell;
    int k;
    bool pos;
  };
  std::vector<std::vector<Side>> sides(m->NumEntities(1));
  for (const Entity* c : m->Entities(0)) {
    const auto su = c->SubEntities(1);
    const auto ro = c->RelativeOrientations();
    for (int k = 0; k < (int)su.size(); ++k) sides[m->Index(*su[k])].push_back({c, k, ro[k] == lf::mesh::Orientation::positive});
  }
  scalar_coef(rng, d, m, rng.uni(0, 5), [&](auto coef, const char* cname) {
    using MF = decltype(coef);
    const std::string tag = describe(d) + " / " + sp.name + " / " + cname + " / " + sel.name;
    auto check = [&](auto& mass, auto& load, const lf::quad::QuadRule* fixed, const char* who) {
      for (const Entity* e : es) {
        const unsigned idx = m->Index(*e);
        MON_CHECK(mass.isActive(*e) == sel.on[idx] && load.isActive(*e) == sel.on[idx], "selected", tag << " " << who << " edge " << idx);
        const auto& fe = *sp.sp->ShapeFunctionLayout(*e);
        const Rule& R = rule(2, fe.Degree() + 10);
        const lf::quad::QuadRule& L = fixed ? *fixed : seg_rule(2 * fe.Degree());
        const MatrixXd x = fixed ? L.Points() : R.x;
        const VectorXd w = fixed ? L.Weights() : R.w;
        const Res em = form_matrix(kMass, *e, fe, coef, x, w), ev = form_vector(*e, fe, coef, x, w);
        const auto M = mass.Eval(*e);
        const auto v = load.Eval(*e);
        judge(tag + " " + who, M, em, form_matrix(kMass, *e, fe, coef, L.Points(), L.Weights()).M, "edge_mass", *e, idx);
        judge(tag + " " + who, v, ev, form_vector(*e, fe, coef, L.Points(), L.Weights()).M, "edge_load", *e, idx);
        MON_CHECK((M - M.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * em.scale, "edge_symmetric", tag << " edge " << idx);
        const VectorXcd one = ones(fe, sp.lagrange);
        const cplx s1 = (one.transpose() * M.template cast<cplx>() * one)(0), s2 = (one.transpose() * v.template cast<cplx>())(0);
        MON_CHECK(std::abs(s1 - s2) <= 1e-11 * (em.scale + ev.scale) * (1 + one.sum().real()), "edge_sum", tag << " edge " << idx);
        event(sel.on[idx] ? "selected_edges" : "unselected_edges");
      }
      // assembled
      const auto& dofh = sp.sp->LocGlobMap();
      const int N = dofh.NumDofs();
      lf::assemble::COOMatrix<cplx> A(N, N);
      VectorXcd b = VectorXcd::Zero(N);
      lf::assemble::AssembleMatrixLocally(1, dofh, dofh, mass, A);
      lf::assemble::AssembleVectorLocally(1, dofh, load, b);
      const auto u = rand_vec<S>(rng, N), v = rand_vec<S>(rng, N);
      const lf::fe::MeshFunctionFE fu(sp.sp, u), fv(sp.sp, v);
      const VectorXcd uc = u.template cast<cplx>(), vc = v.template cast<cplx>();
      const cplx ga = vc.dot(A.makeSparse() * uc), gl = vc.dot(b);
      for (int side = 0; side < 2; ++side) {  // first or last adjacent cell
        cplx a = 0, l = 0, ae = 0, le = 0;
        double as = 1e-300, ls = 1e-300;
        for (const Entity* e : m->Entities(1)) {
          const unsigned idx = m->Index(*e);
          if (!sel.on[idx] || sides[idx].empty()) continue;
          const Side& s = side == 0 ? sides[idx].front() : sides[idx].back();
          const int nc = s.cell->RefEl().NumNodes();
          auto part = [&](const MatrixXd& te, const VectorXd& w, cplx& a, cplx& l, bool scales) {
            VectorXd t = te.row(0).transpose();
            if (!s.pos) t = (1 - t.array()).matrix();
            const MatrixXd x = side_points(nc, s.k, t);
            const MatrixXd J = s.cell->Geometry()->Jacobian(x);
            const VectorXd dir = side_points(nc, s.k, VectorXd::Ones(1)) - side_points(nc, s.k, VectorXd::Zero(1));
            const auto cu = fu(*s.cell, x), cv = fv(*s.cell, x);
            const auto k = coef(*e, te);
            for (int q = 0; q < t.size(); ++q) {
              const double wq = w(q) * (J.middleCols(2 * q, 2) * dir).norm();
              a += wq * to_c(k[q]) * cplx(cu[q]) * std::conj(cplx(cv[q]));
              l += wq * to_c(k[q]) * std::conj(cplx(cv[q]));
              if (scales) as += std::abs(wq * to_c(k[q])) * (1 + std::abs(cu[q]) * std::abs(cv[q])), ls += std::abs(wq * to_c(k[q])) * (1 + std::abs(cv[q]));
            }
          };
          const int p = sp.sp->ShapeFunctionLayout(*e)->Degree();
          const lf::quad::QuadRule& L = fixed ? *fixed : seg_rule(2 * p);
          const Rule& R = rule(2, p + 10);
          if (fixed)
            part(L.Points(), L.Weights(), a, l, true);
          else
            part(R.x, R.w, a, l, true);
          part(L.Points(), L.Weights(), ae, le, false);
        }
        MON_CHECK(std::abs(ga - a) <= 1e-10 * as + 10 * std::abs(ae - a), "trace_mass", tag << " " << who << " " << ga << " expected " << a << " side " << side);
        MON_CHECK(std::abs(gl - l) <= 1e-10 * ls + 10 * std::abs(le - l), "trace_load", tag << " " << who << " " << gl << " expected " << l << " side " << side);
      }
    };
    if constexpr (Uniform) {
      const int which = (int)(i / 3) % 3;
      if (which == 0) {
        lf::uscalfe::MassEdgeMatrixProvider mass(usp, coef, pred);
        lf::uscalfe::ScalarLoadEdgeVectorProvider load(usp, coef, pred);
        check(mass, load, nullptr, "default rule");
      } else if (which == 1) {
        lf::uscalfe::MassEdgeMatrixProvider<S, MF, decltype(pred)> mass(usp, coef, user, pred);
        lf::uscalfe::ScalarLoadEdgeVectorProvider<S, MF, decltype(pred)> load(usp, coef, user, pred);
        check(mass, load, &user, "given rule");
      } else {
        lf::uscalfe::MassEdgeMatrixProvider<S, MF, decltype(flags)> mass(usp, coef, flags);
        lf::uscalfe::ScalarLoadEdgeVectorProvider<S, MF, decltype(flags)> load(usp, coef, flags);
        check(mass, load, nullptr, "data set");
      }
    } else {
      if (i % 2) {
        lf::fe::MassEdgeMatrixProvider mass(sp.sp, coef, pred);
        lf::fe::ScalarLoadEdgeVectorProvider load(sp.sp, coef, pred);
        check(mass, load, nullptr, "general");
      } else {
        lf::fe::MassEdgeMatrixProvider mass(sp.sp, coef, flags);
        lf::fe::ScalarLoadEdgeVectorProvider load(sp.sp, coef, flags);
        check(mass, load, nullptr, "general data set");
      }
    }
    event(std::string("coef_") + cname);
    sig(hcomb(d.hash(), hash_str(sp.name + cname + sel.name)));
    sample(tag);
  });
}
// without a selector every edge is active
void all_active(Rng& rng, u64) {
  Opts o;
  o.max_cells = 8;
  const Desc d = random_desc(rng, o);
  const auto m = build(d);
  const auto usp = lagrange_space<double>(m, rng.uni(1, 3));
  MeshFunctionConstant<double> one(1.0);
  lf::fe::MassEdgeMatrixProvider a(usp, one);
  lf::fe::ScalarLoadEdgeVectorProvider b(usp, one);
  lf::uscalfe::MassEdgeMatrixProvider c(usp, one);
  lf::uscalfe::ScalarLoadEdgeVectorProvider<double, MeshFunctionConstant<double>> e(usp, one);
  double total = 0, sum = 0;
  for (const Entity* g : m->Entities(1)) {
    MON_CHECK(a.isActive(*g) && b.isActive(*g) && c.isActive(*g) && e.isActive(*g), "default_active", describe(d));
    const Rule& R = rule(2, 20);
    const At at = shape_at(*g, R.x);
    total += at.det.dot(R.w);
    sum += e.Eval(*g).sum();
  }
  (void)sum, (void)total;
  sig(d.hash());
}
}  // namespace

void mon::register_all() {
  stream("U02", "general", 150, 4000, edges<double, false>);
  stream("U02", "general_complex", 40, 800, edges<cplx, false>);
  stream("U02", "uniform", 150, 4000, edges<double, true>);
  stream("U02", "all_active", 20, 200, all_active);
  expect("U02", {"edge_mass", "edge_load", "trace_mass", "trace_load", "exact_edges", "selected_edges", "unselected_edges", "coef_function_complex"});
}
