// E01: method of lines for the Fisher/KPP equation with Strang splitting.
#include <strangsplitting.h>

#include "ell.h"

using namespace mon;
using namespace ell;

namespace {
struct Problem {
  Desc d;
  std::shared_ptr<Mesh> m;
  std::shared_ptr<lf::uscalfe::UniformScalarFESpace<double>> fes;
  int n = 0;
  PhysPoly c, h;
  double c0, h0;
  bool robin, nonlocal;
  MatrixXd A, M, L;
  static PhysPoly lin(Rng& r, const Desc& d) { return PhysPoly(r, r.uni(0, 1), d.P); }
  Problem(Rng& r, const Desc& dd) : d(dd), m(build(d)), fes(std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(m)), c(lin(r, d)), h(lin(r, d)) {
    n = fes->LocGlobMap().NumDofs();
    c0 = std::pow(10.0, r.real(-2, 1));
    robin = r.coin();
    h0 = robin ? std::pow(10.0, r.real(-2, 1)) : 0.0;
    nonlocal = r.coin(0.3);
  }
  // positive coefficients
  double cf(const VectorXd& x) const { return c0 * (3.5 + c(x)); }
  double hf(const VectorXd& x) const { return h0 * (3.5 + h(x)); }
  void forms(Rng& r) {
    const auto& dofh = fes->LocGlobMap();
    A = M = MatrixXd::Zero(n, n);
    std::vector<int> at(m->NumEntities(1));
    for (const Entity* e : m->Entities(0)) {
      for (const Entity* s : e->SubEntities(1)) at[m->Index(*s)]++;
      const int nc = ncorners(e->RefEl());
      const Rule& R = rule(nc, 6);
      const auto* fe = fes->ShapeFunctionLayout(*e);
      const auto K = form_matrix(kDiffusion, *e, *fe, MeshFunctionGlobal([&](const VectorXd& x) { return cf(x); }), R.x, R.w);
      const auto B = form_matrix(kMass, *e, *fe, MeshFunctionGlobal([&](const VectorXd&) { return 1.0; }), R.x, R.w);
      const auto I = dofh.GlobalDofIndices(*e);
      for (int i = 0; i < nc; ++i)
        for (int j = 0; j < nc; ++j) A(I[i], I[j]) += K.M(i, j).real(), M(I[i], I[j]) += B.M(i, j).real();
    }
    for (const Entity* e : m->Entities(1)) {
      if (at[m->Index(*e)] != 1) continue;
      const Rule& R = rule(2, 5);
      const auto B = form_matrix(kMass, *e, *fes->ShapeFunctionLayout(*e), MeshFunctionGlobal([&](const VectorXd& x) { return hf(x); }), R.x, R.w);
      const auto I = dofh.GlobalDofIndices(*e);
      for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j) A(I[i], I[j]) += B.M(i, j).real();
    }
    L = MatrixXd::Zero(n, n);
    if (nonlocal) {
      const double s = A.cwiseAbs().maxCoeff();
      for (int k = 0; k < 2 * n; ++k) L(r.uni(0, n - 1), r.uni(0, n - 1)) = 0.1 * s * r.real(-1, 1);
    }
  }
  std::string tag() const { return describe(d) + " c0 " + str(c0) + " h0 " + str(h0) + (nonlocal ? " nonlocal" : ""); }
};
Desc mesh_for(Rng& rng) {
  Opts o;
  o.max_cells = 16;
  o.dw = 2;
  o.affine_only = true;
  o.curved = false;
  return random_desc(rng, o);
}
// one step of the two-stage, L-stable diagonally implicit method
VectorXd diffuse(const MatrixXd& A, const MatrixXd& M, double tau, const VectorXd& u) {
  const double k = 1 - std::sqrt(0.5);
  const Eigen::PartialPivLU<MatrixXd> lu(M + tau * k * A);
  const VectorXd k1 = lu.solve(-(A * u));
  const VectorXd k2 = lu.solve(-(A * (u + tau * (1 - k) * k1)));
  return u + tau * ((1 - k) * k1 + k * k2);
}
VectorXd react(const VectorXd& K, double lt, const VectorXd& u) {
  VectorXd v(u.size());
  for (int i = 0; i < u.size(); ++i) {
    const double E = std::exp(lt);
    v(i) = K(i) * u(i) * E / (K(i) + u(i) * (E - 1));
  }
  return v;
}

void splitting(Rng& rng, u64) {
  Problem p(rng, mesh_for(rng));
  p.forms(rng);
  const std::string tag = p.tag();
  auto cf = [&](const VectorXd& x) { return p.cf(x); };
  auto hf = [&](const VectorXd& x) { return p.hf(x); };
  auto cf2 = cf;
  auto hf2 = hf;
  const auto pr = FisherKPP::assembleGalerkinMatrices(p.fes->LocGlobMap(), cf2, hf2, p.L);
  const MatrixXd A = pr.first, M = pr.second;
  MON_CHECK(near_rel(A, p.A - p.L, 1e-9), "galerkin_stiffness", tag << " " << (A - p.A + p.L).cwiseAbs().maxCoeff());
  MON_CHECK(near_rel(M, p.M, 1e-9), "galerkin_mass", tag << " " << (M - p.M).cwiseAbs().maxCoeff());

  // time scale of the semidiscrete diffusion
  const MatrixXd Q = p.M.partialPivLu().solve(p.A - p.L);
  const double rho = Q.cwiseAbs().rowwise().sum().maxCoeff();
  const double T = rng.real(0.1, 6) / rho;
  const double lambda = rng.coin(0.2) ? 0.0 : rng.real(0.05, 3) / T;
  const int m = rng.coin(0.5) ? rng.uni(1, 4) : rng.uni(5, 30);
  event(m == 1 ? "one_step" : m == 2 ? "two_steps" : "many_steps");
  FisherKPP::StrangSplit S(p.fes, T, m, lambda, cf2, hf2, p.L);
  const double tau = T / m;
  VectorXd u(p.n), K(p.n);
  for (int i = 0; i < p.n; ++i) u(i) = rng.real(0.3, 1), K(i) = rng.real(0.5, 2);
  if (rng.coin(0.2)) u *= 1e-6;
  const std::string t2 = tag + " T " + str(T) + " m " + std::to_string(m) + " lambda " + str(lambda);
  const double us = u.cwiseAbs().maxCoeff();
  const VectorXd d1 = S.diffusionEvolutionOperator(true, u), d2 = S.diffusionEvolutionOperator(false, u);
  MON_CHECK((d1 - diffuse(p.A - p.L, p.M, tau / 2, u)).cwiseAbs().maxCoeff() <= 1e-8 * us, "half_diffusion", t2);
  MON_CHECK((d2 - diffuse(p.A - p.L, p.M, tau, u)).cwiseAbs().maxCoeff() <= 1e-8 * us, "full_diffusion", t2);
  MON_CHECK(S.diffusionEvolutionOperator(true, u) == d1, "repeatable", t2);
  VectorXd v = diffuse(p.A - p.L, p.M, tau / 2, u);
  bool positive = v.minCoeff() > 0;
  for (int k = 0; k < m; ++k) {
    v = react(K, lambda * tau, v);
    v = diffuse(p.A - p.L, p.M, k + 1 < m ? tau : tau / 2, v);
    positive = positive && v.minCoeff() > 0;
  }
  const VectorXd got = S.Evolution(K, u);
  MON_REQUIRE(got.size() == p.n, "evolution_size", t2);
  if (positive) MON_CHECK(near_rel(got, v, 1e-7), "evolution", t2 << " " << mstr(got) << " expected " << mstr(v));
  MON_CHECK(S.Evolution(K, u) == got || !positive, "repeatable", t2);
  sig(hcomb(p.d.hash(), m));
  sample(t2);
}

// states constant in space without boundary exchange follow the logistic law,
// pure diffusion preserves the total amount
void invariants(Rng& rng, u64) {
  Problem p(rng, mesh_for(rng));
  p.h0 = 0;
  p.robin = p.nonlocal = false;
  p.forms(rng);
  const double rho = p.M.partialPivLu().solve(p.A).cwiseAbs().rowwise().sum().maxCoeff();
  const double T = rng.real(0.1, 50) / rho;
  const double lambda = rng.real(0.05, 5) / T;
  const int m = rng.coin(0.5) ? rng.uni(1, 4) : rng.uni(5, 40);
  auto cf = [&](const VectorXd& x) { return p.cf(x); };
  auto hf = [&](const VectorXd&) { return 0.0; };
  const std::string tag = p.tag() + " T " + str(T) + " m " + std::to_string(m) + " lambda " + str(lambda);
  {
    FisherKPP::StrangSplit S(p.fes, T, m, lambda, cf, hf, p.L);
    const double u0 = std::pow(10.0, rng.real(-4, 0.5)), K = rng.real(0.5, 2);
    const VectorXd got = S.Evolution(VectorXd::Constant(p.n, K), VectorXd::Constant(p.n, u0));
    const double E = std::exp(lambda * T), want = K * u0 * E / (K + u0 * (E - 1));
    MON_CHECK((got.array() - want).abs().maxCoeff() <= 1e-8 * (want + u0), "logistic", tag << " u0 " << u0 << " K " << K << " got " << got(0) << " expected " << want);
    const VectorXd eq = S.Evolution(VectorXd::Constant(p.n, K), VectorXd::Constant(p.n, K));
    MON_CHECK((eq.array() - K).abs().maxCoeff() <= 1e-8 * K, "equilibrium", tag);
    const VectorXd z = S.Evolution(VectorXd::Constant(p.n, K), VectorXd::Zero(p.n));
    MON_CHECK(z.cwiseAbs().maxCoeff() == 0, "extinct", tag << " " << mstr(z));
  }
  {
    FisherKPP::StrangSplit S(p.fes, T, m, 0.0, cf, hf, p.L);
    VectorXd u(p.n);
    for (int i = 0; i < p.n; ++i) u(i) = rng.real(0.5, 1);
    const VectorXd got = S.Evolution(VectorXd::Constant(p.n, 1.7), u);
    const double a = (p.M * u).sum(), b = (p.M * got).sum();
    MON_CHECK(std::abs(a - b) <= 1e-8 * std::abs(a), "amount", tag << " " << b << " before " << a);
  }
  sig(hcomb(p.d.hash(), m));
}

// second order in the time step towards the solution at time T
void order(Rng& rng, u64) {
  Problem p(rng, mesh_for(rng));
  p.forms(rng);
  const MatrixXd Q = p.M.partialPivLu().solve(p.A - p.L);
  const double rho = Q.cwiseAbs().rowwise().sum().maxCoeff();
  const double T = rng.real(0.5, 3) / rho;
  const double lambda = rng.real(0.3, 2) / T;
  auto cf = [&](const VectorXd& x) { return p.cf(x); };
  auto hf = [&](const VectorXd& x) { return p.hf(x); };
  VectorXd u(p.n), K(p.n);
  for (int i = 0; i < p.n; ++i) u(i) = rng.real(0.6, 1), K(i) = rng.real(1, 2);
  // classical Runge-Kutta method
  VectorXd y = u;
  const int N = 400;
  const double dt = T / N;
  auto f = [&](const VectorXd& v) -> VectorXd { return -(Q * v) + lambda * (v.array() * (1 - v.array() / K.array())).matrix(); };
  for (int k = 0; k < N; ++k) {
    const VectorXd a = f(y), b = f(y + 0.5 * dt * a), c = f(y + 0.5 * dt * b), e = f(y + dt * c);
    y += dt / 6 * (a + 2 * b + 2 * c + e);
    if (!(y.minCoeff() > 0)) discard("negative values");
  }
  const std::string tag = p.tag() + " T " + str(T) + " lambda " + str(lambda);
  double err[3];
  int m = 16;
  for (int k = 0; k < 3; ++k, m *= 2) {
    FisherKPP::StrangSplit S(p.fes, T, m, lambda, cf, hf, p.L);
    err[k] = (S.Evolution(K, u) - y).cwiseAbs().maxCoeff();
  }
  const double s = y.cwiseAbs().maxCoeff();
  // (T rho / m)^2 bounds the errors of both the splitting and the diffusion
  MON_CHECK(err[0] <= 0.05 * s, "solution_at_T", tag << " error " << err[0] << " of " << s);
  MON_CHECK(err[1] <= 0.45 * err[0] + 1e-7 * s && err[2] <= 0.45 * err[1] + 1e-7 * s, "second_order", tag << " errors " << err[0] << " " << err[1] << " " << err[2] << " of " << s);
  note("max_error_16_steps", err[0] / s);
  sig(p.d.hash());
}

// integrals over selected entities
void integrals(Rng& rng, u64) {
  Opts o;
  o.dw = 2;
  o.max_cells = 20;
  o.affine_only = true;
  Desc d = random_desc(rng, o);
  auto m = build(d);
  const int q = rng.uni(0, 4), codim = rng.uni(0, 1);
  const PhysPoly f(rng, q, d.P);
  std::map<RefEl, lf::quad::QuadRule> R;
  for (auto r : {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) R.emplace(r, lf::quad::make_QuadRule(r, q + 2));
  std::vector<bool> on(m->NumEntities(codim));
  const int mode = rng.uni(0, 2);
  for (std::size_t i = 0; i < on.size(); ++i) on[i] = mode == 0 || (mode == 1 && rng.coin());
  double want = 0, size = 0;
  for (const Entity* e : m->Entities(codim)) {
    if (!on[m->Index(*e)]) continue;
    const Rule& Q = rule(ncorners(e->RefEl()), 5);
    const At a = shape_at(*e, Q.x);
    for (int k = 0; k < Q.x.cols(); ++k) {
      const double w = Q.w(k) * a.det(k) * f(a.X.col(k));
      want += w;
      size += std::abs(w);
    }
  }
  const double got = FisherKPP::localQuadFunction(*m, R, [&](const VectorXd& x) -> double { return f(x); }, codim, [&](const Entity& e) { return static_cast<bool>(on[m->Index(e)]); });
  MON_CHECK(std::abs(got - want) <= 1e-9 * size, "local_integral", describe(d) << " degree " << q << " codim " << codim << " " << got << " expected " << want);
  sig(hcomb(d.hash(), codim * 3 + mode));
}
}  // namespace

void mon::register_all() {
  stream("E01", "splitting", 150, 5000, splitting);
  stream("E01", "invariants", 120, 4000, invariants);
  stream("E01", "order", 40, 1200, order);
  stream("E01", "integrals", 60, 2000, integrals);
  expect("E01", {"galerkin_stiffness", "galerkin_mass", "half_diffusion", "full_diffusion", "evolution", "one_step", "two_steps", "many_steps", "logistic", "equilibrium", "amount", "solution_at_T", "second_order", "local_integral"});
}
