// R03: transfer between levels of a hierarchy.
#include <lf/refinement/mesh_function_transfer.h>

#include "fem.h"
#include "hier.h"
#include <lf/fe/prolongation.h>

using namespace mon;
using namespace fem;

namespace {
template <class S>
using Mat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <class S>
using Row = Eigen::Matrix<S, 1, Eigen::Dynamic>;

// ---- R03 ---------------------------------------------------------------------
bool affine_in_ref(const lf::geometry::Geometry& g) {
  const int d = g.DimLocal();
  MatrixXd x = g.RefEl().NodeCoords();
  const MatrixXd J = g.Jacobian(x);
  for (int k = 1; k < x.cols(); ++k)
    if ((J.middleCols(0, d) - J.middleCols(k * d, d)).cwiseAbs().maxCoeff() > 1e-13) return false;
  return true;
}
struct Chain {
  const Entity* anc = nullptr;
  bool exact = true;
};
// ancestor on the coarse level and whether the recorded positions reproduce the
// shape of the entity exactly
Chain chain_of(const MeshHierarchy& h, const Entity& e, unsigned lf_, unsigned lc) {
  Chain r;
  const Entity* cur = &e;
  for (unsigned l = lf_; l > lc; --l) {
    const auto* g = h.GeometryInParent(l, *cur);
    const Entity* p = h.ParentEntity(l, *cur);
    MON_REQUIRE(g != nullptr && p != nullptr, "chain", "no parent record");
    const int n = cur->RefEl().NumNodes(), pn = p->RefEl().NumNodes();
    // what lies on a corner of an exactly placed entity is exact
    if (n > 1 && pn == 4 && !affine_cell(*p)) {
      const MatrixXd c = g->Global(cur->RefEl().NodeCoords());
      bool par = n != 3;
      for (int i = 0; i < c.cols(); ++i) {
        const VectorXd dlt = c.col((i + 1) % c.cols()) - c.col(i);
        if (dlt(0) != 0 && dlt(1) != 0) par = false;
      }
      r.exact = r.exact && par;
    }
    cur = p;
  }
  r.anc = cur;
  return r;
}
// some coarse cell containing the physical point, by Newton's method
struct Located {
  const Entity* cell = nullptr;
  VectorXd x;
  bool interior = false;
};
using Balls = std::map<const Entity*, std::pair<VectorXd, double>>;
Located locate(const lf::mesh::Mesh& m, const VectorXd& X, double ext, Balls& balls) {
  Located best;
  double bestout = 1e-9;
  for (const Entity* c : m.Entities(0)) {
    const int nc = c->RefEl().NumNodes();
    {
      // sampled bounding ball, generously enlarged
      auto& b = balls[c];
      if (b.first.size() == 0) {
        const MatrixXd s = c->Geometry()->Global(MatrixXd(c->RefEl().NodeCoords()));
        b.first = s.rowwise().mean();
        b.second = 1.5 * (s.colwise() - b.first).colwise().norm().maxCoeff();
      }
      if ((X - b.first).norm() > b.second) continue;
    }
    VectorXd x = VectorXd::Constant(2, nc == 3 ? 1.0 / 3 : 0.5);
    for (int it = 0; it < 30; ++it) {
      const VectorXd xc = x.cwiseMax(-0.0).cwiseMin(1.0);
      const MatrixXd J = c->Geometry()->Jacobian(MatrixXd(xc));
      const VectorXd r = c->Geometry()->Global(MatrixXd(xc)).col(0) + J * (x - xc) - X;
      const VectorXd dx = (J.transpose() * J).ldlt().solve(J.transpose() * r);
      x -= dx;
      if (dx.norm() < 1e-15) break;
      if (x.norm() > 1e3) break;
    }
    if (!(x.norm() < 1e2)) continue;
    const double out = std::max({-x.minCoeff(), (nc == 3 ? x.sum() : x.maxCoeff()) - 1, 0.0});
    const VectorXd xc = x.cwiseMax(0.0).cwiseMin(1.0);
    if ((c->Geometry()->Global(MatrixXd(xc)).col(0) - X).norm() > 1e-9 * ext) continue;
    if (out < bestout || (out == 0 && !best.interior)) {
      best.cell = c;
      best.x = xc;
      bestout = std::min(bestout, std::max(out, 0.0));
      const double in = nc == 3 ? std::min(x.minCoeff(), 1 - x.sum()) : std::min(x.minCoeff(), 1 - x.maxCoeff());
      best.interior = in > 1e-6;
      if (best.interior) break;
    }
  }
  return best;
}
double extent_of(const Desc& d) { return d.P.cwiseAbs().maxCoeff() + 1e-300; }

struct History {
  Desc d;
  std::unique_ptr<MeshHierarchy> h;
  std::string tag;
  u64 hash = 0;
};
History random_history(Rng& rng, int cells, int cap, int steps, bool no3d) {
  History H;
  Opts o;
  o.max_cells = cells;
  if (no3d) o.dw = 2;
  o.curved = rng.coin(0.4);
  if (rng.coin(0.3)) o.affine_only = true;
  if (rng.coin(0.2)) o.quad = false;
  H.d = random_desc(rng, o);
  H.tag = describe(H.d);
  H.hash = H.d.hash();
  H.h = std::make_unique<MeshHierarchy>(build(H.d), std::make_unique<lf::mesh::hybrid2d::MeshFactory>(H.d.dw));
  for (int k = 0; k < steps; ++k) {
    const Step s = random_step(rng, *H.h, cap);
    H.tag += " | " + s.text;
    H.hash = hcomb(H.hash, hash_str(s.text));
    if ((int)H.h->getMesh(H.h->NumLevels() - 1)->NumEntities(0) > cap) break;
  }
  return H;
}

template <class S>
void transfer(Rng& rng, u64) {
  History H = random_history(rng, thorough() ? 20 : 8, thorough() ? 400 : 120, rng.uni(1, thorough() ? 5 : 3), false);
  MeshHierarchy& h = *H.h;
  const unsigned L = h.NumLevels();
  const unsigned lc = rng.uni(0, (int)L - 2), lf_ = rng.uni(lc + 1, (int)L - 1);
  const auto mc = h.getMesh(lc), mf = h.getMesh(lf_);
  const double ext = extent_of(H.d);
  Balls balls;
  // a function of position
  const PhysPoly q1(rng, 3, H.d.P), q2(rng, 2, H.d.P);
  auto fx = [&](const VectorXd& x) -> S {
    if constexpr (std::is_same_v<S, double>) {
      return q1(x);
    } else {
      return S(q1(x), q2(x));
    }
  };
  double fs = 1e-300;
  for (const Entity* p : mf->Entities(2)) fs = std::max(fs, std::abs(fx(node_pos(*p))));
  const lf::mesh::utils::MeshFunctionGlobal glob(fx);
  const lf::refinement::MeshFunctionTransfer tg(h, glob, lc, lf_);
  MON_CHECK(tg.getMesh() == mf, "transfer_mesh", H.tag);
  // a finite element function of the coarse level
  const auto sp = random_space<S>(rng, mc, 4);
  const std::string tag = H.tag + " / " + sp.name + " levels " + std::to_string(lc) + "->" + std::to_string(lf_);
  const auto c = rand_vec<S>(rng, sp.sp->LocGlobMap().NumDofs());
  const lf::fe::MeshFunctionFE u(sp.sp, c);
  const lf::fe::MeshFunctionGradFE gu(sp.sp, c);
  const lf::refinement::MeshFunctionTransfer tu(h, u, lc, lf_);
  const lf::refinement::MeshFunctionTransfer tgu(h, gu, lc, lf_);
  MON_CHECK(tu.getMesh() == mf && tgu.getMesh() == mf, "transfer_mesh", tag);
  const int total = mf->NumEntities(0) + mf->NumEntities(1) + mf->NumEntities(2);
  const double take = std::min(1.0, (thorough() ? 240.0 : 40.0) / total);
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (const Entity* e : mf->Entities(cd)) {
      if (!rng.coin(take)) continue;
      const Chain ch = chain_of(h, *e, lf_, lc);
      const int n = e->RefEl().NumNodes(), m = rng.uni(1, 3);
      MatrixXd x = ref_points(rng, n, m);
      if (!ch.exact) {
        if (lf_ > lc + 1) {
          // only what is certain: nothing
          event("inexact_skipped");
          continue;
        }
        x = e->RefEl().NodeCoords();
        event("corner_points");
      }
      const MatrixXd X = e->Geometry()->Global(x);
      const auto a = tg(*e, x);
      const auto b = tu(*e, x);
      MON_REQUIRE((int)a.size() == x.cols() && (int)b.size() == x.cols(), "transfer_count", tag);
      for (int k = 0; k < x.cols(); ++k) {
        const S want = fx(X.col(k));
        MON_CHECK(std::abs(a[k] - want) <= 1e-9 * fs * (1 + ext / H.d.diam()), "transfer_global", tag << " codim " << cd << " entity " << mf->Index(*e) << " got " << a[k] << " expected " << want);
        const Located lo = locate(*mc, X.col(k), ext, balls);
        if (!lo.cell) {
          event("not_located");
          continue;
        }
        const S wu = u(*lo.cell, MatrixXd(lo.x))[0];
        const double err = std::abs(b[k] - wu);
        note("transfer_err", err);
        MON_CHECK(err <= 1e-6, "transfer_fe", tag << " codim " << cd << " entity " << mf->Index(*e) << " got " << b[k] << " expected " << wu);
        if (cd == 0 && lo.interior && lo.cell == ch.anc) {
          const auto g = tgu(*e, MatrixXd(x.col(k)));
          const auto wg = gu(*lo.cell, MatrixXd(lo.x))[0];
          MON_CHECK((g[0] - wg).norm() <= 1e-5 * (g[0].norm() + wg.norm() + 1), "transfer_gradient", tag);
        }
      }
      event(ch.exact ? "entity_exact" : "entity_corners");
    }
  // refused
  must_fail("transfer_refused", "fine level not finer", [&] { lf::refinement::MeshFunctionTransfer t(h, glob, lc, lc); });
  must_fail("transfer_refused", "level beyond the finest", [&] { lf::refinement::MeshFunctionTransfer t(h, glob, lc, L); });
  must_fail("transfer_refused", "coarse level is the finest", [&] { lf::refinement::MeshFunctionTransfer t(h, glob, L - 1, L); });
  if (lc > 0) must_fail("transfer_refused", "function of another level", [&] { lf::refinement::MeshFunctionTransfer t(h, u, lc - 1, lf_); });
  sig(hcomb(H.hash, hcomb(lc, lf_)));
  sample(tag);
}

template <class S>
void prolong(Rng& rng, u64) {
  History H = random_history(rng, thorough() ? 14 : 7, thorough() ? 200 : 80, rng.uni(1, 3), false);
  MeshHierarchy& h = *H.h;
  const unsigned L = h.NumLevels();
  const unsigned lc = rng.uni(0, (int)L - 2);
  const auto mc = h.getMesh(lc), mf = h.getMesh(lc + 1);
  const auto sc = random_space<S>(rng, mc, 4);
  const auto sf = random_space<S>(rng, mf, 5);
  const std::string tag = H.tag + " / " + sc.name + "->" + sf.name + " level " + std::to_string(lc);
  const auto c = rand_vec<S>(rng, sc.sp->LocGlobMap().NumDofs());
  using V = Eigen::Matrix<S, Eigen::Dynamic, 1>;
  V r;
  if (!no_throw("prolongate", [&] { r = lf::fe::prolongate(h, sc.sp, sf.sp, c, lc); })) return;
  const V r2 = lf::fe::prolongate(h, sc.sp, sf.sp, c, lc);
  MON_REQUIRE(r.size() == sf.sp->LocGlobMap().NumDofs() && r == r2, "prolongate_size", tag);
  const lf::fe::MeshFunctionFE uc(sc.sp, c), uf(sf.sp, r);
  for (const Entity* e : mf->Entities(0)) {
    const auto* g = h.GeometryInParent(lc + 1, *e);
    const Entity* p = h.ParentEntity(lc + 1, *e);
    const int n = e->RefEl().NumNodes(), pn = p->RefEl().NumNodes();
    const auto* fe = sf.sp->ShapeFunctionLayout(*e);
    MatrixXd x;
    // interpolation nodes always
    if (sf.lagrange) {
      x = fe->EvaluationNodes();
    } else {
      x = e->RefEl().NodeCoords();
    }
    auto compare = [&](const MatrixXd& pts, const char* key) {
      const auto a = uf(*e, pts);
      const auto b = uc(*p, MatrixXd(g->Global(pts).cwiseMax(0.0).cwiseMin(1.0)));
      for (std::size_t k = 0; k < a.size(); ++k) {
        note("prolong_err", std::abs(a[k] - b[k]));
        MON_CHECK(std::abs(a[k] - b[k]) <= 1e-9, key, tag << " cell " << mf->Index(*e) << " of " << pn << "-corner parent: " << a[k] << " expected " << b[k]);
      }
    };
    compare(x, "prolong_nodes");
    // contained: same cell type and degrees suffice
    bool contained = sf.pmin >= sc.pmax;
    if (pn == 4) {
      if (n == 4) {
        const MatrixXd k = g->Global(e->RefEl().NodeCoords());
        for (int i = 0; i < 4; ++i) {
          const VectorXd dlt = k.col((i + 1) % 4) - k.col(i);
          if (dlt(0) != 0 && dlt(1) != 0) contained = false;
        }
      } else {
        // maximal degree sc.pmax is total degree 2 sc.pmax
        contained = sf.pmin >= 2 * sc.pmax;
      }
    } else if (n == 4) {
      contained = contained && affine_in_ref(*g);
    }
    if (contained) {
      compare(ref_points(rng, n, 3), "prolong_everywhere");
      event("nested_cell");
    }
  }
  // physical position: nodes of the fine mesh
  Balls balls;
  for (const Entity* p : mf->Entities(2)) {
    if (!rng.coin(0.3)) continue;
    const Located lo = locate(*mc, node_pos(*p), extent_of(H.d), balls);
    if (!lo.cell) continue;
    const S a = uf(*p, MatrixXd(0, 1))[0], b = uc(*lo.cell, MatrixXd(lo.x))[0];
    MON_CHECK(std::abs(a - b) <= 1e-6, "prolong_position", tag << " node " << mf->Index(*p) << " got " << a << " expected " << b);
  }
  must_fail("prolong_refused", "finest level", [&] { (void)lf::fe::prolongate(h, sc.sp, sf.sp, c, L - 1); });
  must_fail("prolong_refused", "too few coefficients", [&] { (void)lf::fe::prolongate(h, sc.sp, sf.sp, V(c.head(c.size() - 1)), lc); });
  sig(hcomb(H.hash, hash_str(sc.name + sf.name)));
  sample(tag);
}
}  // namespace

void mon::register_all() {
  stream("R03", "transfer", 90, 2000, transfer<double>);
  stream("R03", "transfer_complex", 20, 400, transfer<cplx>);
  stream("R03", "prolong", 90, 2000, prolong<double>);
  stream("R03", "prolong_complex", 20, 400, prolong<cplx>);
  expect("R03", {"entity_exact", "entity_corners", "transfer_gradient", "nested_cell", "prolong_everywhere"});
}
