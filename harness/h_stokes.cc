// S01: interior penalty discretisation of the Stokes equations by curls of
// piecewise linear stream functions.
#include <build_system_matrix.h>
#include <mesh_function_velocity.h>
#include <norms.h>
#include <offset_function.h>
#include <piecewise_const_element_matrix_provider.h>
#include <piecewise_const_element_vector_provider.h>
#include <solution_to_mesh_data_set.h>
#include <utils.h>

#include "ell.h"

using namespace mon;
using namespace ell;
namespace st = projects::ipdg_stokes;
using Eigen::Matrix2d;
using Eigen::Vector2d;

namespace {
Opts stokes_opts(Rng& rng) {
  Opts o;
  o.max_cells = rng.coin(0.2) ? 60 : 25;
  o.dw = 2;
  o.quad = false;
  o.curved = false;
  o.omitted = rng.coin();
  o.scale = rng.coin();
  return o;
}
// geometry of a straight triangle put together from its corners
struct Tri {
  Eigen::Matrix<double, 2, 3> c, n, t, curl;  // corners, outward normals, tangents, curls of hat functions
  double area;
  explicit Tri(const Entity& e) {
    const auto sub = e.SubEntities(2);
    for (int i = 0; i < 3; ++i) c.col(i) = node_pos(*sub[i]);
    const Vector2d m = c.rowwise().mean();
    for (int i = 0; i < 3; ++i) {
      const Vector2d d = c.col((i + 1) % 3) - c.col(i);
      Vector2d v(d(1), -d(0));
      v /= v.norm();
      if (v.dot(0.5 * (c.col((i + 1) % 3) + c.col(i)) - m) < 0) v = -v;
      n.col(i) = v;
      t.col(i) = Vector2d(-v(1), v(0));
    }
    const double det = (c(0, 1) - c(0, 0)) * (c(1, 2) - c(1, 0)) - (c(1, 1) - c(1, 0)) * (c(0, 2) - c(0, 0));
    area = std::abs(det) / 2;
    // hat function i vanishes on the side opposite to corner i
    for (int i = 0; i < 3; ++i) {
      const Vector2d a = c.col((i + 1) % 3), b = c.col((i + 2) % 3);
      Vector2d g(-(b - a)(1), (b - a)(0));
      g /= g.dot(c.col(i) - a);
      curl.col(i) = Vector2d(g(1), -g(0));
    }
  }
};
double len(const Entity& e) {
  const auto s = e.SubEntities(1);
  return (node_pos(*s[0]) - node_pos(*s[1])).norm();
}
struct Boundary {
  std::vector<int> cells_at;      // cells at an edge
  std::vector<int> edges_at;      // boundary edges at a node
  int components = 0;             // of the boundary
  bool simple = true;             // every boundary node has two boundary edges
  explicit Boundary(const Mesh& m) : cells_at(m.NumEntities(1)), edges_at(m.NumEntities(2)) {
    for (const Entity* c : m.Entities(0))
      for (const Entity* e : c->SubEntities(1)) cells_at[m.Index(*e)]++;
    std::vector<int> root(m.NumEntities(2));
    for (std::size_t i = 0; i < root.size(); ++i) root[i] = i;
    std::function<int(int)> find = [&](int i) { return root[i] == i ? i : root[i] = find(root[i]); };
    for (const Entity* e : m.Entities(1)) {
      if (cells_at[m.Index(*e)] != 1) continue;
      const auto s = e->SubEntities(1);
      for (const Entity* p : s) edges_at[m.Index(*p)]++;
      root[find(m.Index(*s[0]))] = find(m.Index(*s[1]));
    }
    for (std::size_t i = 0; i < root.size(); ++i) {
      if (edges_at[i] == 0) continue;
      if (edges_at[i] != 2) simple = false;
      if (find(i) == static_cast<int>(i)) ++components;
    }
  }
  bool edge(const Mesh& m, const Entity& e) const { return cells_at[m.Index(e)] == 1; }
  bool node(const Mesh& m, const Entity& e) const { return edges_at[m.Index(e)] > 0; }
};
lf::assemble::UniformFEDofHandler handler(const std::shared_ptr<Mesh>& m) {
  return lf::assemble::UniformFEDofHandler(m, {{RefEl::kPoint(), 1}, {RefEl::kSegment(), 1}});
}
struct Field {
  PhysPoly a, b;
  Field(Rng& r, int q, const MatrixXd& P) : a(r, q, P), b(r, q, P) {}
  Vector2d operator()(const VectorXd& x) const { return {a(x), b(x)}; }
  Matrix2d grad(const VectorXd& x) const {
    Matrix2d g;
    g.row(0) = a.grad(x).transpose();
    g.row(1) = b.grad(x).transpose();
    return g;
  }
};
double random_sigma(Rng& r) { return r.coin(0.2) ? 1.0 : std::pow(10.0, r.real(-2, 2)); }

std::string tag_of(const Desc& d, double sigma, bool mod) {
  return describe(d) + " sigma " + str(sigma) + (mod ? " modified" : "");
}

// normals, tangents, local blocks, load vectors
void blocks(Rng& rng, u64) {
  Desc d = random_desc(rng, stokes_opts(rng));
  auto m = build(d);
  const Boundary bd(*m);
  const double sigma = random_sigma(rng);
  const bool mod = rng.coin();
  const std::string tag = tag_of(d, sigma, mod);
  const auto flags = lf::mesh::utils::flagEntitiesOnBoundary(m);
  const Field f(rng, rng.uni(0, 4), d.P);
  const int deg = std::max(f.a.q, rng.uni(0, 6));
  lf::mesh::utils::CodimMeshDataSet<Vector2d> g(m, 1);
  for (const Entity* e : m->Entities(1)) g(*e) = Vector2d(rng.real(-1, 1), rng.real(-1, 1));
  // not modified is the default
  const auto mp = !mod && rng.coin() ? st::assemble::PiecewiseConstElementMatrixProvider(sigma, flags) : st::assemble::PiecewiseConstElementMatrixProvider(sigma, flags, mod);
  const st::assemble::PiecewiseConstElementVectorProvider vp(sigma, [&](const Vector2d& x) -> Vector2d { return f(x); }, lf::quad::make_QuadRule(RefEl::kTria(), deg), flags, g);
  for (const Entity* c : m->Entities(0)) {
    const Tri T(*c);
    const auto n = st::mesh::computeOutwardNormals(*c);
    const auto t = st::mesh::computeTangentials(*c);
    event(poly_area(T.c, {0, 1, 2}) < 0 ? "clockwise_cell" : "counterclockwise_cell");
    MON_CHECK((n - T.n).norm() < 1e-9, "outward_normals", tag << " cell " << m->Index(*c) << " " << mstr(n) << " expected " << mstr(T.n));
    MON_CHECK((t - T.t).norm() < 1e-9, "tangents", tag << " cell " << m->Index(*c) << " " << mstr(t) << " expected " << mstr(T.t));
    const auto edges = c->SubEntities(1);
    MatrixXd M = MatrixXd::Zero(6, 6);
    M.block(3, 0, 3, 3) = T.t.transpose() * T.curl;
    M.block(0, 3, 3, 3) = M.block(3, 0, 3, 3).transpose();
    VectorXd v = VectorXd::Zero(6);
    for (int i = 0; i < 3; ++i) {
      const bool b = bd.edge(*m, *edges[i]);
      M(3 + i, 3 + i) = -1 / sigma / (mod ? len(*edges[i]) : 1.0) / (b ? 1 : 2);
      if (b) v(3 + i) = g(*edges[i]).dot(T.t.col(i));
      event(b ? "boundary_edge" : "inner_edge");
    }
    const MatrixXd got = mp.Eval(*c);
    MON_REQUIRE(got.rows() == 6 && got.cols() == 6, "matrix_size", tag);
    // curls scale with the inverse of the element size: compare blockwise
    MON_CHECK(near_rel(got.block(3, 0, 3, 3), M.block(3, 0, 3, 3), 1e-9) && near_rel(got.block(0, 3, 3, 3), M.block(0, 3, 3, 3), 1e-9), "block_coupling", tag << " cell " << m->Index(*c) << " " << mstr(got) << " expected " << mstr(M));
    MON_CHECK(near_rel(got.block(3, 3, 3, 3), M.block(3, 3, 3, 3), 1e-9) && got.block(0, 0, 3, 3).norm() == 0, "block_penalty", tag << " cell " << m->Index(*c) << " " << mstr(got) << " expected " << mstr(M));
    MON_CHECK(mp.isActive(*c) && vp.isActive(*c), "active", tag);
    const Rule& R = rule(3, 5);
    double scale = 0;
    const MatrixXd X = c->Geometry()->Global(R.x);
    for (int k = 0; k < X.cols(); ++k) {
      const Vector2d w = 2 * T.area * R.w(k) * f(X.col(k));
      v.head(3) += T.curl.transpose() * w;
      scale += w.norm() * T.curl.norm();
    }
    const VectorXd w = vp.Eval(*c);
    MON_REQUIRE(w.size() == 6, "vector_size", tag);
    MON_CHECK((w - v).head(3).cwiseAbs().maxCoeff() <= 1e-9 * scale, "load", tag << " cell " << m->Index(*c) << " " << mstr(w) << " expected " << mstr(v));
    MON_CHECK((w - v).tail(3).cwiseAbs().maxCoeff() <= 1e-9, "boundary_load", tag << " cell " << m->Index(*c) << " " << mstr(w) << " expected " << mstr(v));
  }
  sig(hcomb(d.hash(), mod));
  sample(tag);
}

// the algebraic problem solved densely; false when it is too badly conditioned
bool solve(const MatrixXd& A, const VectorXd& b, VectorXd* x) {
  Eigen::PartialPivLU<MatrixXd> lu(A);
  *x = lu.solve(b);
  for (int k = 0; k < 3; ++k) *x += lu.solve(b - A * *x);
  return lu.rcond() > 1e-11 && x->allFinite();
}

// what a solution has to fulfil, stated without the matrix
struct Jumps {
  VectorXd jump, size;  // tangential jump, sum of magnitudes
  Jumps(const Mesh& m, const std::vector<Vector2d>& u) : jump(VectorXd::Zero(m.NumEntities(1))), size(jump) {
    for (const Entity* c : m.Entities(0)) {
      const Tri T(*c);
      const auto s = c->SubEntities(1);
      for (int i = 0; i < 3; ++i) {
        const double v = u[m.Index(*c)].dot(T.t.col(i));
        jump(m.Index(*s[i])) += v;
        size(m.Index(*s[i])) += u[m.Index(*c)].norm();
      }
    }
  }
};
std::vector<Vector2d> curl_of(const Mesh& m, const VectorXd& psi) {
  std::vector<Vector2d> u(m.NumEntities(0));
  for (const Entity* c : m.Entities(0)) {
    const Tri T(*c);
    const auto s = c->SubEntities(2);
    Vector2d v = Vector2d::Zero();
    for (int i = 0; i < 3; ++i) v += psi(m.Index(*s[i])) * T.curl.col(i);
    u[m.Index(*c)] = v;
  }
  return u;
}

void problem(Rng& rng, u64) {
  const bool flow = rng.coin();
  Opts o = stokes_opts(rng);
  Desc d;
  std::shared_ptr<Mesh> m;
  std::unique_ptr<Boundary> bd;
  for (int k = 0;; ++k) {
    if (k == 20) discard("no mesh with a connected boundary");
    if (flow) {
      o.holes = o.disconnected = o.nonmanifold = false;
    }
    d = random_desc(rng, o);
    m = build(d);
    bd = std::make_unique<Boundary>(*m);
    if (!flow || (bd->components == 1 && bd->simple)) break;
  }
  event(bd->components > 1 ? "several_boundaries" : "one_boundary");
  const double sigma = random_sigma(rng);
  const bool mod = rng.coin();
  const std::string tag = tag_of(d, sigma, mod) + (flow ? " flow" : "");
  const int nn = m->NumEntities(2), ne = m->NumEntities(1);
  const auto dofh = handler(m);
  auto nd = [&](const Entity& p) { return dofh.GlobalDofIndices(p)[0]; };
  const Field f(rng, rng.uni(0, 3), d.P);
  const bool load = rng.coin(0.8);
  double fsize = 0;
  for (int k = 0; k < d.P.cols(); ++k) fsize = std::max(fsize, f(d.P.col(k)).norm());
  // boundary data: random, with normal components taken from a stream function
  // on the boundary for in/out flow, or a constant
  const bool constant = flow && rng.coin(0.3);
  const Vector2d u0(rng.real(-1, 1), rng.real(-1, 1));
  VectorXd psib = VectorXd::Zero(nn);
  double diam = 0;
  for (int k = 0; k < d.P.cols(); ++k) diam = std::max(diam, (d.P.col(k) - d.P.col(0)).norm());
  for (const Entity* p : m->Entities(2)) {
    const VectorXd x = node_pos(*p);
    if (bd->node(*m, *p)) psib(m->Index(*p)) = constant ? u0(0) * x(1) - u0(1) * x(0) : rng.real(-1, 1) * diam;
  }
  std::vector<Vector2d> g(ne);
  for (const Entity* e : m->Entities(1)) g[m->Index(*e)] = Vector2d(rng.real(-1, 1), rng.real(-1, 1));
  if (flow)
    for (const Entity* c : m->Entities(0)) {
      const Tri T(*c);
      const auto s = c->SubEntities(1);
      const auto p = c->SubEntities(2);
      for (int i = 0; i < 3; ++i)
        if (bd->edge(*m, *s[i])) {
          const int a = i, b = (i + 1) % 3;
          const double un = psib(m->Index(*p[a])) * T.curl.col(a).dot(T.n.col(i)) + psib(m->Index(*p[b])) * T.curl.col(b).dot(T.n.col(i));
          g[m->Index(*s[i])] = constant ? u0 : Vector2d(un * T.n.col(i) + rng.real(-1, 1) * diam * T.t.col(i));
        }
    }
  auto gf = [&](const Entity& e) -> Vector2d { return g[m->Index(e)]; };
  auto ff = [&](const Vector2d& x) -> Vector2d { return load && !constant ? f(x) : Vector2d::Zero(); };
  const auto qr = lf::quad::make_QuadRule(RefEl::kTria(), 4);
  MatrixXd A;
  VectorXd b, off = VectorXd::Zero(nn + ne);
  if (!no_throw(flow ? "in_out_flow" : "no_flow", [&] {
        if (flow) {
          const auto [M, rhs, o2] = mod ? st::assemble::buildSystemMatrixInOutFlow(m, dofh, ff, gf, sigma, qr, mod) : st::assemble::buildSystemMatrixInOutFlow(m, dofh, ff, gf, sigma, qr);
          A = M.makeDense();
          b = rhs;
          off = o2;
        } else {
          const auto [M, rhs] = mod ? st::assemble::buildSystemMatrixNoFlow(m, dofh, ff, gf, sigma, qr, mod) : st::assemble::buildSystemMatrixNoFlow(m, dofh, ff, gf, sigma, qr);
          A = M.makeDense();
          b = rhs;
        }
      }))
    throw CaseAborted{};
  MON_REQUIRE(A.rows() == nn + ne && A.cols() == nn + ne && b.size() == nn + ne && off.size() == nn + ne, "system_size", tag);
  MON_CHECK((A - A.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * A.cwiseAbs().maxCoeff(), "symmetric", tag);
  // rescaled so that the unknowns have comparable size
  VectorXd x;
  if (!solve(A, b, &x)) {
    event("ill_conditioned");
    discard("ill-conditioned");
  }
  x.head(nn) += off.head(nn);

  const auto psi = st::post_processing::extractBasisFunctionCoefficients(m, dofh, x);
  const auto vel = st::post_processing::extractVelocity(m, dofh, x);
  VectorXd ps(nn);
  for (const Entity* p : m->Entities(2)) {
    ps(m->Index(*p)) = x(nd(*p));
    MON_CHECK(psi(*p) == x(nd(*p)), "coefficients", tag);
  }
  std::vector<Vector2d> u(m->NumEntities(0));
  double umax = 0;
  for (const Entity* c : m->Entities(0)) u[m->Index(*c)] = vel(*c), umax = std::max(umax, vel(*c).norm());
  const auto own = curl_of(*m, ps);
  const auto fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(m);
  VectorXd cf(nn);
  for (const Entity* p : m->Entities(2)) cf(fes->LocGlobMap().GlobalDofIndices(*p)[0]) = ps(m->Index(*p));
  const st::post_processing::MeshFunctionVelocity<double, double> mfv(fes, cf);
  const double tol = 1e-8 * (umax + 1e-12 * ps.cwiseAbs().maxCoeff());
  std::vector<double> flux(ne, 0), bflux(ne, 0);
  for (const Entity* c : m->Entities(0)) {
    const auto i = m->Index(*c);
    const Tri T(*c);
    // rounding of the curl of large, nearly equal values
    const double rd = tol + 1e-12 * ps.cwiseAbs().maxCoeff() * T.curl.norm();
    MON_CHECK((u[i] - own[i]).norm() <= rd, "velocity", tag << " cell " << i << " " << mstr(u[i]) << " expected " << mstr(own[i]));
    const MatrixXd lp = ref_points(rng, 3, 2);
    for (const auto& v : mfv(*c, lp)) MON_CHECK(v.size() == 2 && (Vector2d(v) - own[i]).norm() <= rd, "velocity_function", tag << " cell " << i << " " << mstr(v) << " expected " << mstr(own[i]));
    const auto s = c->SubEntities(1);
    for (int k = 0; k < 3; ++k) flux[m->Index(*s[k])] += u[i].dot(T.n.col(k));
  }
  double rdmax = tol;
  for (const Entity* c : m->Entities(0)) rdmax = std::max(rdmax, 1e-12 * ps.cwiseAbs().maxCoeff() * Tri(*c).curl.norm());
  double gmax = 0;
  for (auto& v : g) gmax = std::max(gmax, v.norm());
  for (const Entity* c : m->Entities(0)) {
    const Tri T(*c);
    const auto s = c->SubEntities(1);
    for (int k = 0; k < 3; ++k) {
      const int e = m->Index(*s[k]);
      if (!bd->edge(*m, *s[k])) {
        MON_CHECK(std::abs(flux[e]) <= 2 * rdmax, "normal_continuous", tag << " edge " << e << " " << flux[e]);
      } else {
        const double want = flow ? g[e].dot(T.n.col(k)) : 0.0;
        MON_CHECK(std::abs(flux[e] - want) <= 10 * rdmax + 1e-7 * gmax, flow ? "boundary_flux" : "no_boundary_flux", tag << " edge " << e << " " << flux[e] << " expected " << want);
      }
    }
  }
  if (constant) {
    for (auto& v : u) MON_CHECK((v - u0).norm() <= 1e-7 + 10 * rdmax, "constant_velocity", tag << " " << mstr(v) << " expected " << mstr(u0));
  }
  // Galerkin identity
  const Jumps ju(*m, u);
  double jmax = 0;
  for (int k = 0; k < 4; ++k) {
    VectorXd z = VectorXd::Zero(nn);
    int inner = 0;
    std::vector<int> cand;
    for (const Entity* p : m->Entities(2))
      if (!bd->node(*m, *p)) cand.push_back(m->Index(*p)), ++inner;
    if (inner == 0) {
      event("no_inner_node");
      break;
    }
    if (k < 2) {
      z(rng.pick(cand)) = 1;
    } else {
      for (int q : cand) z(q) = rng.real(-1, 1);
    }
    const auto v = curl_of(*m, z);
    const Jumps jv(*m, v);
    double lhs = 0, rhs = 0, scale = 0;
    for (const Entity* e : m->Entities(1)) {
      const int i = m->Index(*e);
      const double s = sigma * (mod ? len(*e) : 1.0);
      const double gt = 0;
      (void)gt;
      lhs += s * ju.jump(i) * jv.jump(i);
      scale += s * (ju.size(i) + (bd->edge(*m, *e) ? g[i].norm() : 0.0)) * jv.size(i);
    }
    for (const Entity* c : m->Entities(0)) {
      const Tri T(*c);
      const auto s = c->SubEntities(1);
      for (int q = 0; q < 3; ++q)
        if (bd->edge(*m, *s[q])) rhs += sigma * (mod ? len(*s[q]) : 1.0) * g[m->Index(*s[q])].dot(T.t.col(q)) * jv.jump(m->Index(*s[q]));
      const Rule& R = rule(3, 4);
      const MatrixXd X = c->Geometry()->Global(R.x);
      for (int q = 0; q < X.cols(); ++q) {
        const double w = 2 * T.area * R.w(q) * ff(X.col(q)).dot(v[m->Index(*c)]);
        rhs += w;
        scale += std::abs(w);
      }
    }
    jmax = std::max(jmax, std::abs(lhs - rhs) / (scale + 1e-300));
    MON_CHECK(std::abs(lhs - rhs) <= 1e-7 * scale, "weak_equation", tag << " " << lhs << " expected " << rhs << " magnitude " << scale);
  }
  // the unknowns of the edges are the scaled jumps
  for (const Entity* c : m->Entities(0)) {
    const Tri T(*c);
    const auto s = c->SubEntities(1);
    for (int q = 0; q < 3; ++q) {
      const int e = m->Index(*s[q]);
      const double gt = bd->edge(*m, *s[q]) ? g[e].dot(T.t.col(q)) : 0.0;
      const double sc = sigma * (mod ? len(*s[q]) : 1.0);
      const double want = sc * (ju.jump(e) - gt), got = x(dofh.InteriorGlobalDofIndices(*s[q])[0]);
      MON_CHECK(std::abs(got - want) <= sc * (1e-7 * (ju.size(e) + gmax) + 20 * rdmax), "edge_unknowns", tag << " edge " << e << " " << got << " expected " << want);
    }
  }
  event(flow ? "solved_flow" : "solved_no_flow");
  sig(hcomb(d.hash(), mod * 2 + flow));
  sample(tag);
}

// norms of piecewise polynomial fields
void norms(Rng& rng, u64) {
  Opts o = stokes_opts(rng);
  Desc d = random_desc(rng, o);
  auto m = build(d);
  const Boundary bd(*m);
  const std::string tag = describe(d);
  const int q = rng.uni(0, 3);
  std::vector<Field> F;
  const bool cont = rng.coin(0.3);
  for (unsigned i = 0; i < m->NumEntities(0); ++i) F.push_back(cont && i ? F[0] : Field(rng, q, d.P));
  auto f = [&](const Entity& e, const MatrixXd& x) {
    const MatrixXd X = e.Geometry()->Global(x);
    std::vector<Vector2d> v;
    for (int k = 0; k < X.cols(); ++k) v.push_back(F[m->Index(e)](X.col(k)));
    return v;
  };
  auto df = [&](const Entity& e, const MatrixXd& x) {
    const MatrixXd X = e.Geometry()->Global(x);
    std::vector<Matrix2d> v;
    for (int k = 0; k < X.cols(); ++k) v.push_back(F[m->Index(e)].grad(X.col(k)));
    return v;
  };
  const int deg = 2 * q + rng.uni(0, 2);
  auto qs = [&](const Entity& e) { return lf::quad::make_QuadRule(e.RefEl(), deg); };
  double l2 = 0, dg = 0;
  const Rule& R = rule(3, 6);
  for (const Entity* c : m->Entities(0)) {
    const Tri T(*c);
    const MatrixXd X = c->Geometry()->Global(R.x);
    for (int k = 0; k < X.cols(); ++k) {
      l2 += 2 * T.area * R.w(k) * F[m->Index(*c)](X.col(k)).squaredNorm();
      dg += 2 * T.area * R.w(k) * F[m->Index(*c)].grad(X.col(k)).squaredNorm();
    }
  }
  std::vector<std::vector<int>> at(m->NumEntities(1));
  for (const Entity* c : m->Entities(0))
    for (const Entity* e : c->SubEntities(1)) at[m->Index(*e)].push_back(m->Index(*c));
  const auto [t, w] = gauss(5);
  for (const Entity* e : m->Entities(1)) {
    const auto& a = at[m->Index(*e)];
    if (a.size() != 2) continue;
    const auto s = e->SubEntities(1);
    for (int k = 0; k < t.size(); ++k) {
      const VectorXd y = (1 - t(k)) * node_pos(*s[0]) + t(k) * node_pos(*s[1]);
      dg += w(k) * (F[a[0]](y) - F[a[1]](y)).squaredNorm();
    }
  }
  const double n0 = st::post_processing::L2norm(m, f, qs);
  MON_CHECK(std::abs(n0 - std::sqrt(l2)) <= 1e-9 * std::sqrt(l2), "l2_norm", tag << " " << n0 << " expected " << std::sqrt(l2));
  double n1 = -1;
  if (no_throw("dg_norm_runs", [&] { n1 = st::post_processing::DGnorm(m, f, df, qs); }))
    MON_CHECK(std::abs(n1 - std::sqrt(dg)) <= 1e-8 * std::sqrt(dg) + 1e-9 * std::sqrt(l2), "dg_norm", tag << " degree " << deg << (cont ? " continuous " : " ") << n1 << " expected " << std::sqrt(dg));
  event(deg > 1 ? "several_points_per_edge" : "one_point_per_edge");
  event(cont ? "continuous_field" : "jumping_field");
  sig(hcomb(d.hash(), deg));
  sample(tag);
}

// rotated gradients of finite element functions of any degree
void velocity(Rng& rng, u64) {
  Opts o = stokes_opts(rng);
  o.quad = rng.coin();
  o.curved = rng.coin();
  Desc d = random_desc(rng, o);
  auto m = build(d);
  const int p = rng.uni(1, 3);
  std::shared_ptr<lf::uscalfe::UniformScalarFESpace<double>> fes;
  if (p == 1) fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(m);
  if (p == 2) fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<double>>(m);
  if (p == 3) fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<double>>(m);
  const VectorXd c = rand_vec<double>(rng, fes->LocGlobMap().NumDofs());
  const std::string tag = describe(d) + " degree " + std::to_string(p);
  const st::post_processing::MeshFunctionVelocity<double, double> v(fes, c);
  const lf::fe::MeshFunctionGradFE<double, double> g(fes, c);
  for (const Entity* e : m->Entities(0)) {
    const MatrixXd x = ref_points(rng, ncorners(e->RefEl()), rng.uni(1, 4));
    const auto V = v(*e, x);
    const auto G = g(*e, x);
    MON_REQUIRE(V.size() == G.size() && static_cast<int>(V.size()) == x.cols(), "velocity_count", tag);
    for (std::size_t k = 0; k < V.size(); ++k) MON_CHECK(V[k].size() == 2 && std::abs(V[k](0) - G[k](1)) + std::abs(V[k](1) + G[k](0)) <= 1e-12 * G[k].norm(), "curl_of_function", tag << " " << mstr(V[k]) << " gradient " << mstr(G[k]));
  }
  sig(hcomb(d.hash(), p));
}
}  // namespace

void mon::register_all() {
  stream("S01", "blocks", 150, 5000, blocks);
  stream("S01", "problem", 250, 8000, problem);
  stream("S01", "norms", 100, 3000, norms);
  stream("S01", "velocity", 60, 2000, velocity);
  expect("S01", {"clockwise_cell", "counterclockwise_cell", "block_coupling", "block_penalty", "load", "boundary_load", "symmetric", "solved_flow", "solved_no_flow", "several_boundaries", "normal_continuous", "boundary_flux", "no_boundary_flux", "constant_velocity", "weak_equation", "edge_unknowns", "velocity_function", "l2_norm", "dg_norm", "several_points_per_edge", "curl_of_function"});
}
