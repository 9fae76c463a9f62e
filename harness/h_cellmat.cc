// U01: element matrices and vectors of cells.
#include "ell.h"

using namespace mon;
using namespace ell;

namespace {
const lf::quad::QuadRule& lib_rule(RefEl r, int degree) {
  static std::map<std::pair<int, int>, lf::quad::QuadRule> m;
  auto it = m.find({(int)r.Id(), degree});
  if (it == m.end()) it = m.emplace(std::make_pair((int)r.Id(), degree), lf::quad::make_QuadRule(r, degree)).first;
  return it->second;
}
std::vector<const Entity*> shuffled_cells(Rng& r, const lf::mesh::Mesh& m, int cap) {
  std::vector<const Entity*> c;
  for (const Entity* e : m.Entities(0)) c.push_back(e);
  r.shuffle(c);
  if ((int)c.size() > cap) c.resize(cap);
  return c;
}
struct Judge {
  std::string tag;
  template <class M>
  void matrix(const M& got, const Res& exact, const MatrixXcd& emu, const char* key, const Entity& e, unsigned idx) {
    const MatrixXcd g = got.template cast<cplx>();
    MON_REQUIRE(g.rows() == exact.M.rows() && g.cols() == exact.M.cols(), "shape_of_result", tag << " " << key << " " << g.rows() << "x" << g.cols());
    double q = 0;
    const bool ok = close(g, exact, emu, &q);
    note(std::string(key) + "_err_over_tol", q);
    int i = 0, j = 0;
    (g - exact.M).cwiseAbs().maxCoeff(&i, &j);
    MON_CHECK(ok, key, tag << " cell " << idx << " entry (" << i << "," << j << ") " << g(i, j) << " expected " << exact.M(i, j) << " (scale " << exact.scale << ")");
    if ((emu - exact.M).cwiseAbs().maxCoeff() <= 1e-12 * exact.scale) event("exact_cells");
    (void)e;
  }
};

// scalar coefficients: diffusion, mass, load with the general providers
template <class S>
void general(Rng& rng, u64 i) {
  Opts o;
  o.max_cells = thorough() ? 16 : 8;
  if (rng.coin(0.2)) o.affine_only = true;
  const Desc d = random_desc(rng, o);
  const auto m = build(d);
  const auto sp = random_space<S>(rng, m, thorough() ? 9 : 6);
  auto cells = shuffled_cells(rng, *m, thorough() ? 6 : 3);
  const bool tensors = i % 3 == 0;
  const int kind = tensors ? rng.uni(0, 2) : rng.uni(0, 5);
  Judge J;
  auto run = [&](auto coef, const char* cname, bool sym, auto is_scalar) {
    J.tag = describe(d) + " / " + sp.name + " / " + cname;
    constexpr bool scalar = decltype(is_scalar)::value;
    lf::fe::DiffusionElementMatrixProvider prov(sp.sp, coef);
    for (const Entity* c : cells) {
      const auto& fe = *sp.sp->ShapeFunctionLayout(*c);
      const int nc = c->RefEl().NumNodes();
      const unsigned idx = m->Index(*c);
      const Rule& R = rule(nc, fe.Degree() + 9);
      const auto& L = lib_rule(c->RefEl(), 2 * fe.Degree());
      const VectorXcd one = ones(fe, sp.lagrange);
      MON_CHECK(prov.isActive(*c), "active", J.tag);
      {
        const auto A = prov.Eval(*c);
        const Res ex = form_matrix(kDiffusion, *c, fe, coef, R.x, R.w);
        const MatrixXcd emu = form_matrix(kDiffusion, *c, fe, coef, L.Points(), L.Weights()).M;
        J.matrix(A, ex, emu, "diffusion", *c, idx);
        MON_CHECK((A.template cast<cplx>() * one).cwiseAbs().maxCoeff() <= 1e-11 * ex.scale, "diffusion_kernel", J.tag << " cell " << idx);
        if (sym) MON_CHECK((A - A.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * ex.scale, "diffusion_symmetric", J.tag << " cell " << idx);
        const auto A2 = prov.Eval(*c);
        MON_CHECK((A - A2).cwiseAbs().maxCoeff() <= 1e-14 * ex.scale, "repeatable", J.tag);
      }
    }
    if constexpr (scalar) {
      lf::fe::MassElementMatrixProvider mass(sp.sp, coef);
      lf::fe::ScalarLoadElementVectorProvider load(sp.sp, coef);
      for (const Entity* c : cells) {
        const auto& fe = *sp.sp->ShapeFunctionLayout(*c);
        const int nc = c->RefEl().NumNodes();
        const unsigned idx = m->Index(*c);
        const Rule& R = rule(nc, fe.Degree() + 9);
        const auto& L = lib_rule(c->RefEl(), 2 * fe.Degree());
        const VectorXcd one = ones(fe, sp.lagrange);
        MON_CHECK(mass.isActive(*c) && load.isActive(*c), "active", J.tag);
        const auto M = mass.Eval(*c);
        const Res ex = form_matrix(kMass, *c, fe, coef, R.x, R.w);
        const MatrixXcd emu = form_matrix(kMass, *c, fe, coef, L.Points(), L.Weights()).M;
        J.matrix(M, ex, emu, "mass", *c, idx);
        MON_CHECK((M - M.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * ex.scale, "mass_symmetric", J.tag << " cell " << idx);
        const auto v = load.Eval(*c);
        const Res lv = form_vector(*c, fe, coef, R.x, R.w);
        const MatrixXcd le = form_vector(*c, fe, coef, L.Points(), L.Weights()).M;
        J.matrix(v, lv, le, "load", *c, idx);
        // sum of mass = integral of the coefficient = sum of load
        const cplx s1 = (one.transpose() * M.template cast<cplx>() * one)(0), s2 = (one.transpose() * v.template cast<cplx>())(0);
        MON_CHECK(std::abs(s1 - s2) <= 1e-11 * (ex.scale + lv.scale) * (1 + one.sum().real()), "mass_sum", J.tag << " cell " << idx);
      }
      event("scalar_coefficient");
    } else {
      event("tensor_coefficient");
    }
    event(std::string("coef_") + cname);
    sig(hcomb(d.hash(), hash_str(sp.name + cname)));
    sample(J.tag);
  };
  if (tensors)
    tensor_coef(rng, d, kind, [&](auto c, const char* n, bool sym) { run(c, n, sym, std::false_type{}); });
  else
    scalar_coef(rng, d, m, kind, [&](auto c, const char* n) { run(c, n, true, std::true_type{}); });
}

// the providers for uniform spaces, default and user-chosen rules
template <class S>
void uniform(Rng& rng, u64 i) {
  Opts o;
  o.max_cells = thorough() ? 16 : 8;
  if (rng.coin(0.2)) o.affine_only = true;
  const Desc d = random_desc(rng, o);
  const auto m = build(d);
  const int p = 1 + i % 3;
  const auto sp = lagrange_space<S>(m, p);
  auto cells = shuffled_cells(rng, *m, thorough() ? 8 : 4);
  const int kind = rng.uni(0, 5);
  std::map<RefEl, lf::quad::QuadRule> rules;
  const int qt = rng.uni(0, 9), qq = rng.uni(0, 9);
  rules.emplace(RefEl::kTria(), rng.coin(0.2) ? lf::quad::make_QuadRuleNodal(RefEl::kTria()) : lib_rule(RefEl::kTria(), qt));
  rules.emplace(RefEl::kQuad(), rng.coin(0.2) ? lf::quad::make_QuadRuleNodal(RefEl::kQuad()) : lib_rule(RefEl::kQuad(), qq));
  Judge J;
  auto run = [&](auto alpha, auto gamma, const std::string& name, bool sym) {
    J.tag = describe(d) + " / lagrange" + std::to_string(p) + " / " + name;
    lf::uscalfe::ReactionDiffusionElementMatrixProvider prov(sp, alpha, gamma);
    lf::uscalfe::ReactionDiffusionElementMatrixProvider prov2(sp, alpha, gamma, rules);
    lf::uscalfe::ScalarLoadElementVectorProvider load(sp, gamma);
    lf::uscalfe::ScalarLoadElementVectorProvider<S, decltype(gamma)> load2(sp, gamma, rules);
    for (const Entity* c : cells) {
      const auto& fe = *sp->ShapeFunctionLayout(*c);
      const int nc = c->RefEl().NumNodes();
      const unsigned idx = m->Index(*c);
      const Rule& R = rule(nc, p + 9);
      const auto& L = lib_rule(c->RefEl(), 2 * p);
      auto both = [&](const MatrixXd& x, const VectorXd& w) {
        Res a = form_matrix(kDiffusion, *c, fe, alpha, x, w), b = form_matrix(kMass, *c, fe, gamma, x, w);
        a.M += b.M;
        a.scale += b.scale;
        return a;
      };
      MON_CHECK(prov.isActive(*c) && load.isActive(*c) && prov2.isActive(*c) && load2.isActive(*c), "active", J.tag);
      const Res ex = both(R.x, R.w);
      const auto A = prov.Eval(*c);
      J.matrix(A, ex, both(L.Points(), L.Weights()).M, "reaction_diffusion", *c, idx);
      if (sym) MON_CHECK((A - A.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * ex.scale, "rd_symmetric", J.tag << " cell " << idx);
      const auto& U = rules.at(c->RefEl());
      const Res eu = both(U.Points(), U.Weights());
      J.matrix(prov2.Eval(*c), eu, eu.M, "reaction_diffusion_rule", *c, idx);
      const Res lv = form_vector(*c, fe, gamma, R.x, R.w);
      J.matrix(load.Eval(*c), lv, form_vector(*c, fe, gamma, L.Points(), L.Weights()).M, "uniform_load", *c, idx);
      const Res lu = form_vector(*c, fe, gamma, U.Points(), U.Weights());
      J.matrix(load2.Eval(*c), lu, lu.M, "uniform_load_rule", *c, idx);
    }
    // a collection lacking a rule
    for (RefEl missing : {RefEl::kTria(), RefEl::kQuad()}) {
      auto part = rules;
      part.erase(missing);
      const Entity* of = nullptr;
      for (const Entity* c : m->Entities(0))
        if (c->RefEl() == missing) of = c;
      if (!of) continue;
      must_fail("missing_rule", "reaction-diffusion without rule", [&] {
        lf::uscalfe::ReactionDiffusionElementMatrixProvider q(sp, alpha, gamma, part);
        (void)q.Eval(*of);
      });
      must_fail("missing_rule", "load without rule", [&] {
        lf::uscalfe::ScalarLoadElementVectorProvider<S, decltype(gamma)> q(sp, gamma, part);
        (void)q.Eval(*of);
      });
    }
    sig(hcomb(d.hash(), hash_str(name) + p));
    sample(J.tag);
  };
  MeshFunctionConstant<double> cst(rng.real(-2, 2));
  if (i % 4 == 0)
    tensor_coef(rng, d, rng.uni(0, 2), [&](auto c, const char* n, bool sym) { run(c, cst, std::string(n) + "+constant", sym); });
  else if (i % 4 == 1)
    scalar_coef(rng, d, m, kind, [&](auto c, const char* n) { run(cst, c, std::string("constant+") + n, true); });
  else
    scalar_coef(rng, d, m, kind, [&](auto c, const char* n) { run(c, c, std::string(n) + " twice", true); });
}

// the classes for linear finite elements
void linear(Rng& rng, u64) {
  Opts o;
  o.max_cells = 14;
  o.curved = false;
  o.dw = 2;
  const bool affine = rng.coin(0.4);
  o.affine_only = affine;
  const Desc d = random_desc(rng, o);
  const auto m = build(d);
  const auto sp = lagrange_space<double>(m, 1);
  const std::string tag = describe(d);
  const MeshFunctionConstant<double> one(1.0);
  const lf::uscalfe::LinearFELaplaceElementMatrix lap;
  Judge J{tag};
  const PhysPoly q(rng, 1, d.P);
  auto fx = [&](const VectorXd& x) { return q(x); };
  const MeshFunctionGlobal f(fx);
  const lf::uscalfe::LinearFELocalLoadVector<double, decltype(f)> load(f);
  const double c0 = rng.real(-2, 2);
  const MeshFunctionConstant<double> fc(c0);
  const lf::uscalfe::LinearFELocalLoadVector<double, MeshFunctionConstant<double>> loadc(fc);
  for (const Entity* c : m->Entities(0)) {
    const auto& fe = *sp->ShapeFunctionLayout(*c);
    const int nc = c->RefEl().NumNodes();
    const Rule& R = rule(nc, 10);
    MON_CHECK(lap.isActive(*c) && load.isActive(*c), "active", tag);
    const auto& L = lib_rule(c->RefEl(), 2);
    const Res ex = form_matrix(kDiffusion, *c, fe, one, R.x, R.w);
    const MatrixXd A = lap.Eval(*c);
    J.matrix(MatrixXd(A.topLeftCorner(nc, nc)), ex, form_matrix(kDiffusion, *c, fe, one, L.Points(), L.Weights()).M, "linear_laplace", *c, m->Index(*c));
    const auto v = load.Eval(*c);
    const auto vc = loadc.Eval(*c);
    const Res lv = form_vector(*c, fe, f, R.x, R.w), lc = form_vector(*c, fe, fc, R.x, R.w);
    if (affine_cell(*c)) {
      if (nc == 3) J.matrix(MatrixXd(v.head(3)), lv, lv.M, "linear_load", *c, m->Index(*c));
      J.matrix(MatrixXd(vc.head(nc)), lc, lc.M, "linear_load_constant", *c, m->Index(*c));
    }
    MON_CHECK(std::abs(vc.head(nc).sum() - lc.M.sum()) <= 1e-11 * lc.scale * nc, "linear_load_sum", tag << " " << vc.sum() << " " << lc.M.sum());
    event("linear_cell");
  }
  sig(d.hash());
}

// assembled forms evaluated on functions
template <class S>
void assembled(Rng& rng, u64) {
  Opts o;
  o.max_cells = 12;
  const Desc d = random_desc(rng, o);
  const auto m = build(d);
  const auto sp = random_space<S>(rng, m, 5);
  const auto& dofh = sp.sp->LocGlobMap();
  const int N = dofh.NumDofs();
  scalar_coef(rng, d, m, rng.uni(0, 2), [&](auto coef, const char* cname) {
    const std::string tag = describe(d) + " / " + sp.name + " / " + cname;
    using V = Eigen::Matrix<S, Eigen::Dynamic, 1>;
    lf::assemble::COOMatrix<cplx> A(N, N), M(N, N);
    VectorXcd f = VectorXcd::Zero(N);
    lf::fe::DiffusionElementMatrixProvider dp(sp.sp, coef);
    lf::fe::MassElementMatrixProvider mp(sp.sp, coef);
    lf::fe::ScalarLoadElementVectorProvider lp(sp.sp, coef);
    lf::assemble::AssembleMatrixLocally(0, dofh, dofh, dp, A);
    lf::assemble::AssembleMatrixLocally(0, dofh, dofh, mp, M);
    lf::assemble::AssembleVectorLocally(0, dofh, lp, f);
    const V u = rand_vec<S>(rng, N), v = rand_vec<S>(rng, N);
    const lf::fe::MeshFunctionFE fu(sp.sp, u), fv(sp.sp, v);
    const lf::fe::MeshFunctionGradFE gu(sp.sp, u), gv(sp.sp, v);
    cplx a = 0, mm = 0, l = 0, ae = 0, me = 0, le = 0;
    double as = 1e-300, ms = 1e-300, ls = 1e-300;
    auto add = [&](auto&& quad, cplx& a, cplx& mm, cplx& l, bool scales) {
      for (const Entity* c : m->Entities(0)) {
        auto [x, w] = quad(*c);
        const At at = shape_at(*c, x);
        const auto k = coef(*c, x);
        const auto cu = fu(*c, x), cv = fv(*c, x);
        const auto du = gu(*c, x), dv = gv(*c, x);
        for (int q = 0; q < x.cols(); ++q) {
          const double wq = w(q) * at.det(q);
          const cplx t1 = wq * to_c(k[q]) * cplx((dv[q].adjoint() * du[q])(0)), t2 = wq * to_c(k[q]) * cplx(cu[q]) * std::conj(cplx(cv[q])),
                     t3 = wq * to_c(k[q]) * std::conj(cplx(cv[q]));
          a += t1, mm += t2, l += t3;
          if (scales) {
            as += std::abs(wq * to_c(k[q])) * (dv[q].norm() * du[q].norm());
            ms += std::abs(wq * to_c(k[q])) * (1 + std::abs(cu[q]) * std::abs(cv[q]));
            ls += std::abs(wq * to_c(k[q])) * (1 + std::abs(cv[q]));
          }
        }
      }
    };
    add([&](const Entity& c) { const Rule& R = rule(c.RefEl().NumNodes(), sp.pmax + 9); return std::pair<MatrixXd, VectorXd>(R.x, R.w); }, a, mm, l, true);
    add([&](const Entity& c) { const auto& L = lib_rule(c.RefEl(), 2 * sp.sp->ShapeFunctionLayout(c)->Degree()); return std::pair<MatrixXd, VectorXd>(L.Points(), L.Weights()); }, ae, me, le, false);
    const auto As = A.makeSparse(), Ms = M.makeSparse();
    const VectorXcd uc = u.template cast<cplx>(), vc = v.template cast<cplx>();
    const cplx ga = vc.dot(As * uc), gm = vc.dot(Ms * uc), gl = vc.dot(f);
    // v.dot conjugates v: rows are test functions
    MON_CHECK(std::abs(ga - a) <= 1e-10 * as + 10 * std::abs(ae - a) + 1e-3 * std::abs(ae - a), "assembled_diffusion", tag << " " << ga << " expected " << a << " scale " << as);
    MON_CHECK(std::abs(gm - mm) <= 1e-10 * ms + 10 * std::abs(me - mm), "assembled_mass", tag << " " << gm << " expected " << mm);
    MON_CHECK(std::abs(gl - l) <= 1e-10 * ls + 10 * std::abs(le - l), "assembled_load", tag << " " << gl << " expected " << l);
    sig(hcomb(d.hash(), hash_str(sp.name + cname)));
  });
}
}  // namespace

void mon::register_all() {
  stream("U01", "general", 150, 3000, general<double>);
  stream("U01", "general_complex", 30, 600, general<cplx>);
  stream("U01", "uniform", 120, 3000, uniform<double>);
  stream("U01", "linear", 60, 1500, linear);
  stream("U01", "assembled", 60, 1500, assembled<double>);
  expect("U01", {"diffusion", "mass", "load", "reaction_diffusion", "reaction_diffusion_rule", "uniform_load_rule", "linear_laplace", "tensor_coefficient", "exact_cells"});
}
