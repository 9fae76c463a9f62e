// Random programs over a pool of library objects: every object carries the
// answers it gave when it was made, which are asked for again after other objects
// were destroyed, moved, copied or changed.
#pragma once
#include <lf/io/io.h>

#include <filesystem>
#include <fstream>
#include <iostream>

#include "fem.h"
#include "gmshfile.h"
#include "hier.h"

namespace life {
using namespace mon;
using namespace fem;
namespace lmu = lf::mesh::utils;

using Mesh = lf::mesh::Mesh;
using MeshP = std::shared_ptr<const Mesh>;
using Space = lf::fe::ScalarFESpace<double>;
using USpace = lf::uscalfe::UniformScalarFESpace<double>;
using lf::refinement::MeshHierarchy;
using Print = std::vector<double>;

// answers of a mesh to everything one can ask
inline void mesh_print(const Mesh& m, Print& p, int stride = 1) {
  p.push_back(m.DimWorld());
  for (unsigned cd = 0; cd <= 2; ++cd) {
    const auto ents = m.Entities(cd);
    p.push_back(ents.size());
    for (std::size_t i = 0; i < ents.size(); i += stride) {
      const Entity* e = ents[i];
      p.push_back(m.Index(*e));
      p.push_back(m.Contains(*e));
      p.push_back(e->RefEl().Id());
      const auto* g = e->Geometry();
      const MatrixXd x = e->RefEl().NodeCoords();
      const MatrixXd y = g->Global(x);
      p.insert(p.end(), y.data(), y.data() + y.size());
      const VectorXd v = g->IntegrationElement(x);
      p.insert(p.end(), v.data(), v.data() + v.size());
      for (unsigned sc = 0; sc <= 2 - cd; ++sc)
        for (const Entity* s : e->SubEntities(sc)) p.push_back(m.Index(*s));
      if (cd < 2)
        for (auto o : e->RelativeOrientations()) p.push_back(lf::mesh::to_sign(o));
    }
  }
}
inline void dofh_print(const lf::assemble::DofHandler& h, Print& p) {
  p.push_back(h.NumDofs());
  const auto m = h.Mesh();
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m->Entities(cd)) {
      p.push_back(h.NumLocalDofs(*e));
      p.push_back(h.NumInteriorDofs(*e));
      for (auto i : h.GlobalDofIndices(*e)) p.push_back(i);
      for (auto i : h.InteriorGlobalDofIndices(*e)) p.push_back(i);
    }
  for (unsigned i = 0; i < h.NumDofs(); ++i) {
    const Entity& e = h.Entity(i);
    p.push_back(e.Codim() * 1e6 + m->Index(e));
  }
}
inline void space_print(const Space& s, Print& p) {
  const auto m = s.Mesh();
  dofh_print(s.LocGlobMap(), p);
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m->Entities(cd)) {
      const auto* fe = s.ShapeFunctionLayout(*e);
      p.push_back(fe->Degree());
      const MatrixXd ev = fe->EvaluationNodes();
      const MatrixXd v = fe->EvalReferenceShapeFunctions(ev);
      p.push_back(v.sum());
      p.push_back(v.cwiseAbs().sum());
      if (cd < 2) p.push_back(fe->GradientsReferenceShapeFunctions(ev).cwiseAbs().sum());
      Eigen::RowVectorXd nv(ev.cols());
      for (int i = 0; i < ev.cols(); ++i) nv(i) = std::sin(i + 1.0);
      const Eigen::RowVectorXd d = fe->NodalValuesToDofs(nv);
      p.insert(p.end(), d.data(), d.data() + d.size());
    }
}
template <class MF>
void mf_print(const MF& f, const Mesh& m, Print& p, bool cells_only = true) {
  auto push = [&](const auto& v) {
    using V = std::decay_t<decltype(v)>;
    if constexpr (std::is_arithmetic_v<V>)
      p.push_back(v);
    else {
      const MatrixXd t = v;
      p.insert(p.end(), t.data(), t.data() + t.size());
    }
  };
  for (unsigned cd = 0; cd <= (cells_only ? 0 : 1); ++cd)
    for (const Entity* e : m.Entities(cd)) {
      MatrixXd x = MatrixXd::Constant(2 - cd, 3, 0.25);
      x(0, 1) = 0.5;
      x(0, 2) = 0.125;
      const auto r = f(*e, x);
      for (std::size_t i = 0; i < r.size(); ++i) push(r[i]);
    }
}

struct Obj {
  std::string kind;
  std::function<void(Print&)> print;  // answers; uses the object only
  Print ref;
  std::function<bool(Rng&)> churn;  // move/copy/grow the object in place; false: nothing done
  // what other objects can be made from
  MeshP mesh;
  std::shared_ptr<MeshHierarchy> hier;
  std::shared_ptr<Space> space;
  std::shared_ptr<USpace> uspace;
  std::shared_ptr<lf::assemble::DofHandler> dofh;
  std::shared_ptr<lf::fe::MeshFunctionFE<double, double>> fef;
  int level = -1;
  std::vector<std::shared_ptr<Obj>> needs;  // documented: must outlive this one
};
using ObjP = std::shared_ptr<Obj>;

inline bool same(const Print& a, const Print& b) {
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (!near(a[i], b[i], 1e-10) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
  return true;
}

struct Quiet {
  std::ostringstream sink;
  std::streambuf* old = nullptr;
  explicit Quiet(bool on) {
    if (on) old = std::cout.rdbuf(sink.rdbuf());
  }
  ~Quiet() {
    if (old) std::cout.rdbuf(old);
  }
};

struct World {
  Rng& r;
  std::vector<ObjP> pool;
  std::string log;
  u64 h = 0;
  bool heavy;
  bool threaded = false;  // several worlds at the same time
  std::string tag;        // for the names of files
  std::vector<Print>* trace = nullptr;  // every first answer
  std::function<void()> step;           // after every operation
  explicit World(Rng& rr, bool hv) : r(rr), heavy(hv) {}

  void add(ObjP o) {
    o->print(o->ref);
    event("made:" + o->kind);
    if (trace) trace->push_back(o->ref);
    log += " +" + o->kind;
    h = hcomb(h, hash_str(o->kind));
    pool.push_back(std::move(o));
  }
  template <class P>
  ObjP find(P&& pred) {
    std::vector<ObjP> c;
    for (auto& o : pool)
      if (pred(*o)) c.push_back(o);
    return c.empty() ? nullptr : r.pick(c);
  }
  ObjP some_mesh() {
    if (auto o = find([](const Obj& x) { return x.mesh != nullptr; })) return o;
    make_mesh();
    return pool.back();
  }
  ObjP some_space() {
    if (auto o = find([](const Obj& x) { return x.space != nullptr; })) return o;
    make_space();
    return pool.back();
  }
  ObjP some_uspace() {
    if (auto o = find([](const Obj& x) { return x.uspace != nullptr; })) return o;
    make_space(true);
    return pool.back();
  }
  ObjP some_fef() {
    if (auto o = find([](const Obj& x) { return x.fef != nullptr; })) return o;
    make_fef();
    return pool.back();
  }
  void add_mesh(MeshP m, const char* kind) {
    auto o = std::make_shared<Obj>();
    o->kind = kind;
    o->mesh = std::move(m);
    Obj* q = o.get();
    o->print = [q](Print& p) { mesh_print(*q->mesh, p); };
    add(o);
  }
  Desc desc() {
    Opts o;
    o.max_cells = heavy ? 14 : 7;
    o.scale = false;
    return random_desc(r, o);
  }
  // --- makers -----------------------------------------------------------------
  void make_mesh() {
    const int k = r.uni(0, 3);
    if (k <= 1) {
      add_mesh(build(desc()), "mesh");
    } else if (k == 2) {
      const auto lo = Eigen::Vector2d(r.real(-1, 0), r.real(-1, 0));
      const auto hi = Eigen::Vector2d(r.real(1, 2), r.real(1, 2));
      auto f = std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2);
      const unsigned nx = r.uni(1, 3), ny = r.uni(1, 3);
      if (r.coin()) {
        auto b = std::make_unique<lmu::TPTriagMeshBuilder>(std::move(f));
        b->setBottomLeftCorner(lo).setTopRightCorner(hi(0), hi(1)).setNumXCells(nx).setNumYCells(ny);
        add_mesh(b->Build(), "structured_mesh");
      } else {
        auto b = std::make_unique<lmu::TPQuadMeshBuilder>(std::move(f));
        b->setBottomLeftCorner(lo).setTopRightCorner(hi(0), hi(1)).setNumXCells(nx).setNumYCells(ny);
        add_mesh(b->Build(), "structured_mesh");
      }
    } else {
      make_gmsh();
    }
  }
  void make_gmsh() {
    Quiet q(!threaded);
    const gmshf::Model m = gmshf::random_model(r, heavy ? 10 : 6);
    const auto enc = static_cast<gmshf::Enc>(r.uni(0, 2));
    const gmshf::File f = r.coin() ? gmshf::write_v2(r, m, enc) : gmshf::write_v4(r, m, enc);
    const std::string fn = env().scratch + "/life" + tag + ".msh";
    {
      std::ofstream o(fn, std::ios::binary | std::ios::trunc);
      o.write(f.s.data(), (std::streamsize)f.s.size());
    }
    auto rd = std::make_shared<lf::io::GmshReader>(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(m.d.dw), fn);
    std::filesystem::remove(fn);
    if (r.coin()) add_mesh(rd->mesh(), "gmsh_mesh");
    if (r.coin(0.7)) {
      auto o = std::make_shared<Obj>();
      o->kind = "gmsh_reader";
      o->print = [rd](Print& p) {
        const auto m = static_cast<const lf::io::GmshReader&>(*rd).mesh();
        mesh_print(*m, p, 2);
        for (unsigned cd = 0; cd <= 2; ++cd)
          for (auto& [n, s] : rd->PhysicalEntities(cd)) {
            p.push_back(n);
            p.push_back(rd->PhysicalEntityName2Nr(s, cd) == n);
          }
        for (unsigned cd = 0; cd <= 2; ++cd)
          for (const Entity* e : m->Entities(cd))
            for (auto n : rd->PhysicalEntityNr(*e)) p.push_back(n);
      };
      o->churn = [rd](Rng&) { (void)rd->mesh(); return false; };
      add(o);
      // a reader keeps its mesh alive: use the mesh through the reader only
    }
    if (pool.empty() || !pool.back()->mesh) add_mesh(static_cast<const lf::io::GmshReader&>(*rd).mesh(), "gmsh_mesh");
  }
  void make_bad_file() {
    Quiet q(!threaded);
    const gmshf::Model m = gmshf::random_model(r, 5);
    const auto enc = static_cast<gmshf::Enc>(r.uni(0, 2));
    gmshf::File f = r.coin() ? gmshf::write_v2(r, m, enc) : gmshf::write_v4(r, m, enc);
    f.s.resize(r.uni(0, (int)f.s.size() / 2));
    const std::string fn = env().scratch + "/bad" + tag + ".msh";
    {
      std::ofstream o(fn, std::ios::binary | std::ios::trunc);
      o.write(f.s.data(), (std::streamsize)f.s.size());
    }
    try {
      lf::io::GmshReader rd(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(m.d.dw), fn);
    } catch (const std::exception&) {
      event("refused_file");
    }
    std::filesystem::remove(fn);
  }
  void make_hier() {
    Opts op;
    op.max_cells = 5;
    op.scale = false;
    auto o = std::make_shared<Obj>();
    o->kind = "hierarchy";
    const Desc d = random_desc(r, op);
    std::shared_ptr<Mesh> m0 = build(d);
    o->hier = std::make_shared<MeshHierarchy>(m0, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(d.dw));
    Obj* q = o.get();
    o->print = [q](Print& p) {
      const MeshHierarchy& h = *q->hier;
      p.push_back(h.NumLevels());
      for (unsigned l = 0; l < h.NumLevels(); ++l) {
        const auto m = h.getMesh(l);
        mesh_print(*m, p, 3);
        for (unsigned cd = 0; cd <= 2; ++cd)
          for (const Entity* e : m->Entities(cd)) {
            if (l > 0) {
              const auto* pe = h.ParentEntity(l, *e);
              p.push_back(pe ? pe->Codim() * 1e6 + h.getMesh(l - 1)->Index(*pe) : -1);
              const auto* g = h.GeometryInParent(l, *e);
              if (g) p.push_back(g->Global(e->RefEl().NodeCoords()).cwiseAbs().sum());
            }
          }
      }
    };
    o->churn = [q](Rng& rr) {
      auto& h = *q->hier;
      const int n = h.getMesh(h.NumLevels() - 1)->NumEntities(0);
      if (n > 60 || h.NumLevels() > 4) return false;
      random_step(rr, h, 60);
      q->ref.clear();
      q->print(q->ref);
      event("refined");
      return true;
    };
    add(o);
    if (r.coin(0.7)) o->churn(r);
  }
  void make_level() {
    auto o = find([](const Obj& x) { return x.hier != nullptr; });
    if (!o) return make_hier();
    const int l = r.uni(0, (int)o->hier->NumLevels() - 1);
    add_mesh(r.coin() ? MeshP(o->hier->getMesh(l)) : MeshP(static_cast<const MeshHierarchy&>(*o->hier).getMesh(l)), "level_mesh");
  }
  void make_transfer() {
    // MeshFunctionTransfer refers to the hierarchy and the function: both outlive it
    auto o = find([](const Obj& x) { return x.hier != nullptr && x.hier->NumLevels() > 1; });
    if (!o) return;
    const int L = o->hier->NumLevels();
    const int c = r.uni(0, L - 2), f = r.uni(c + 1, L - 1);
    auto t = std::make_shared<Obj>();
    t->kind = "transfer";
    auto sp = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(o->hier->getMesh(c));
    auto fn = std::make_shared<lf::fe::MeshFunctionFE<double, double>>(sp, rand_vec<double>(r, sp->LocGlobMap().NumDofs()));
    sp.reset();
    auto tr = std::make_shared<lf::refinement::MeshFunctionTransfer<lf::fe::MeshFunctionFE<double, double>>>(*o->hier, *fn, c, f);
    t->needs.push_back(o);
    t->print = [fn, tr](Print& p) {
      const auto m = tr->getMesh();
      mf_print(*tr, *m, p);
    };
    add(t);
  }
  void make_dofh() {
    const auto m = some_mesh()->mesh;
    auto o = std::make_shared<Obj>();
    const int nn = r.uni(0, 2), ns = r.uni(0, 2), nt = r.uni(0, 2), nq = r.uni(0, 3);
    using namespace lf::assemble;
    Obj* q = o.get();
    o->print = [q](Print& p) { dofh_print(*q->dofh, p); };
    if (r.coin()) {
      o->kind = "uniform_dofs";
      o->dofh = std::make_shared<UniformFEDofHandler>(m, UniformFEDofHandler::dof_map_t{{RefEl::kPoint(), nn}, {RefEl::kSegment(), ns}, {RefEl::kTria(), nt}, {RefEl::kQuad(), nq}});
      o->churn = [q](Rng& rr) {
        auto& h = static_cast<UniformFEDofHandler&>(*q->dofh);
        if (rr.coin()) {
          q->dofh = std::make_shared<UniformFEDofHandler>(std::move(h));
        } else {
          auto n = std::make_shared<UniformFEDofHandler>(h.Mesh(), UniformFEDofHandler::dof_map_t{{RefEl::kPoint(), 1}});
          *n = std::move(h);
          q->dofh = n;
        }
        event("moved");
        return true;
      };
    } else {
      o->kind = "dynamic_dofs";
      o->dofh = std::make_shared<DynamicFEDofHandler>(m, [m = m.get(), nn, ns, nt](const Entity& e) -> size_type {
        return (m->Index(e) + nn + ns * e.Codim()) % (2 + nt);
      });
      o->churn = [q](Rng& rr) {
        auto& h = static_cast<DynamicFEDofHandler&>(*q->dofh);
        if (rr.coin()) {
          q->dofh = std::make_shared<DynamicFEDofHandler>(std::move(h));
        } else {
          auto n = std::make_shared<DynamicFEDofHandler>(h.Mesh(), [](const Entity&) -> size_type { return 1; });
          *n = std::move(h);
          q->dofh = n;
        }
        event("moved");
        return true;
      };
    }
    add(o);
  }
  template <class S, class Make>
  void put_space(std::shared_ptr<S> s, const char* kind, Make other) {
    auto o = std::make_shared<Obj>();
    o->kind = kind;
    o->space = s;
    if constexpr (std::is_convertible_v<S*, USpace*>) o->uspace = s;
    Obj* q = o.get();
    o->print = [q](Print& p) { space_print(*q->space, p); };
    o->churn = [q, other](Rng& rr) {
      // move only when nobody else shares the space
      if (q->space.use_count() > (q->uspace ? 2 : 1)) return false;
      auto& old = static_cast<S&>(*q->space);
      std::shared_ptr<S> n;
      if (rr.coin()) {
        n = std::make_shared<S>(std::move(old));
      } else {
        n = other(old.Mesh());
        *n = std::move(old);
      }
      q->space = n;
      if constexpr (std::is_convertible_v<S*, USpace*>) q->uspace = n;
      event("moved");
      event(std::string("moved_space"));
      return true;
    };
    add(o);
  }
  void make_space(bool uniform = false) {
    const auto m = some_mesh()->mesh;
    using namespace lf::uscalfe;
    using H = lf::fe::HierarchicScalarFESpace<double>;
    switch (r.uni(0, uniform ? 2 : 4)) {
      case 0:
        return put_space(std::make_shared<FeSpaceLagrangeO1<double>>(m), "lagrange1", [](MeshP mm) { return std::make_shared<FeSpaceLagrangeO1<double>>(mm); });
      case 1:
        return put_space(std::make_shared<FeSpaceLagrangeO2<double>>(m), "lagrange2", [](MeshP mm) { return std::make_shared<FeSpaceLagrangeO2<double>>(mm); });
      case 2:
        return put_space(std::make_shared<FeSpaceLagrangeO3<double>>(m), "lagrange3", [](MeshP mm) { return std::make_shared<FeSpaceLagrangeO3<double>>(mm); });
      case 3: {
        const unsigned p = r.uni(1, 5);
        return put_space(std::make_shared<H>(m, p), "hierarchic", [](MeshP mm) { return std::make_shared<H>(mm, 2U); });
      }
      default: {
        const unsigned a = r.uni(1, 3), b = r.uni(1, 3);
        return put_space(std::make_shared<H>(m, [mm = m.get(), a, b](const Entity& e) -> unsigned { return e.Codim() == 2 ? 1 : 1 + (mm->Index(e) * a + b) % 4; }),
                         "hierarchic_varying", [](MeshP mm) { return std::make_shared<H>(mm, 3U); });
      }
    }
  }
  void make_fef() {
    auto s = some_space();
    auto o = std::make_shared<Obj>();
    o->kind = "fe_function";
    o->fef = std::make_shared<lf::fe::MeshFunctionFE<double, double>>(s->space, rand_vec<double>(r, s->space->LocGlobMap().NumDofs()));
    Obj* q = o.get();
    o->print = [q](Print& p) {
      const auto m = q->fef->getMesh();
      mf_print(*q->fef, *m, p, false);
    };
    o->churn = [q](Rng& rr) {
      using F = lf::fe::MeshFunctionFE<double, double>;
      q->fef = rr.coin() ? std::make_shared<F>(*q->fef) : std::make_shared<F>(std::move(*q->fef));
      event("moved");
      return true;
    };
    add(o);
  }
  void make_gradf() {
    auto s = some_space();
    auto o = std::make_shared<Obj>();
    o->kind = "fe_gradient";
    using G = lf::fe::MeshFunctionGradFE<double, double>;
    auto box = std::make_shared<std::unique_ptr<G>>(std::make_unique<G>(s->space, rand_vec<double>(r, s->space->LocGlobMap().NumDofs())));
    o->print = [box](Print& p) {
      const auto m = (*box)->getMesh();
      mf_print(**box, *m, p);
    };
    o->churn = [box](Rng& rr) {
      *box = rr.coin() ? std::make_unique<G>(**box) : std::make_unique<G>(std::move(**box));
      event("moved");
      return true;
    };
    add(o);
  }
  void make_expr() {
    auto a = some_fef();
    auto o = std::make_shared<Obj>();
    o->kind = "expression";
    const double k = r.real(0.5, 2);
    // operands are temporaries or copies: the expression must own them
    auto make = [&]() {
      const lf::fe::MeshFunctionFE<double, double> f = *a->fef;
      lf::fe::MeshFunctionGradFE<double, double> g(f.getFESpace(), VectorXd::LinSpaced(f.getFESpace()->LocGlobMap().NumDofs(), -1, 1));
      auto e = (f + lmu::MeshFunctionGlobal([k](const VectorXd& x) { return k * x(0); })) * lmu::MeshFunctionConstant<double>(k) - lmu::squaredNorm(g) * f;
      return e;
    };
    using X = decltype(make());
    auto box = std::make_shared<std::unique_ptr<X>>(std::make_unique<X>(make()));
    // entities for the evaluation: the function operand shares the mesh
    std::weak_ptr<const Mesh> wm = a->fef->getMesh();
    o->print = [box, wm](Print& p) {
      const auto m = wm.lock();
      if (!m) {
        p.assign(1, -77);
        return;
      }
      mf_print(**box, *m, p);
    };
    o->churn = [box](Rng& rr) {
      *box = rr.coin() ? std::make_unique<X>(**box) : std::make_unique<X>(std::move(**box));
      event("moved");
      return true;
    };
    add(o);
  }
  void make_dataset() {
    const auto m = some_mesh()->mesh;
    auto o = std::make_shared<Obj>();
    std::weak_ptr<const Mesh> wm = m;  // the data set keeps the mesh alive
    if (r.coin()) {
      const unsigned cd = r.uni(0, 2);
      using D = lmu::CodimMeshDataSet<double>;
      auto box = std::make_shared<D>(m, cd, 0.0);
      for (const Entity* e : m->Entities(cd)) (*box)(*e) = r.real();
      o->kind = "codim_data";
      o->print = [box, wm, cd](Print& p) {
        const auto mm = wm.lock();
        MON_REQUIRE(mm != nullptr, "data_keeps_mesh", "codim data set");
        for (const Entity* e : mm->Entities(cd)) {
          p.push_back(box->DefinedOn(*e));
          p.push_back((*box)(*e));
        }
      };
    } else {
      using D = lmu::AllCodimMeshDataSet<int>;
      auto box = std::make_shared<std::unique_ptr<D>>(std::make_unique<D>(m, 3));
      for (unsigned cd = 0; cd <= 2; ++cd)
        for (const Entity* e : m->Entities(cd)) (**box)(*e) = r.uni(0, 100);
      o->kind = "all_codim_data";
      o->print = [box, wm](Print& p) {
        const auto mm = wm.lock();
        MON_REQUIRE(mm != nullptr, "data_keeps_mesh", "all codim data set");
        for (unsigned cd = 0; cd <= 2; ++cd)
          for (const Entity* e : mm->Entities(cd)) p.push_back((**box)(*e));
      };
      o->churn = [box](Rng& rr) {
        if (rr.coin()) {
          *box = std::make_unique<D>(std::move(**box));
        } else {
          auto n = std::make_unique<D>(std::move(**box));
          D other(std::move(*n));
          *n = std::move(other);
          *box = std::move(n);
        }
        event("moved");
        return true;
      };
    }
    add(o);
  }
  void make_boundary() {
    const auto m = some_mesh()->mesh;
    auto o = std::make_shared<Obj>();
    std::weak_ptr<const Mesh> wm = m;
    o->kind = "boundary_flags";
    const bool all = r.coin();
    auto a = all ? std::make_shared<lmu::AllCodimMeshDataSet<bool>>(lmu::flagEntitiesOnBoundary(m)) : nullptr;
    auto c = !all ? std::make_shared<lmu::CodimMeshDataSet<bool>>(lmu::flagEntitiesOnBoundary(m, 1)) : nullptr;
    auto cnt = std::make_shared<lmu::CodimMeshDataSet<lf::base::size_type>>(lmu::CountNumSuperEntities(m, 1, 1));
    o->print = [a, c, cnt, wm](Print& p) {
      const auto mm = wm.lock();
      MON_REQUIRE(mm != nullptr, "data_keeps_mesh", "boundary flags");
      for (const Entity* e : mm->Entities(1)) {
        p.push_back(a ? (*a)(*e) : (*c)(*e));
        p.push_back((*cnt)(*e));
      }
    };
    add(o);
  }
  void make_provider() {
    auto o = std::make_shared<Obj>();
    const lmu::MeshFunctionConstant<double> one(1.5);
    const lmu::MeshFunctionGlobal f([](const VectorXd& x) { return 1 + x(0) * x(0); });
    std::weak_ptr<const Mesh> wm;
    auto cells = [&](auto prov) {
      o->print = [prov, wm](Print& p) {
        const auto m = wm.lock();
        if (!m) {
          p.assign(1, -77);
          return;
        }
        for (const Entity* e : m->Entities(0)) {
          if (e->Geometry()->DimGlobal() != 2) continue;
          const auto M = prov->Eval(*e);
          p.push_back(M.sum());
          p.push_back(M.cwiseAbs().sum());
        }
      };
    };
    auto edges = [&](auto prov) {
      o->print = [prov, wm](Print& p) {
        const auto m = wm.lock();
        if (!m) {
          p.assign(1, -77);
          return;
        }
        for (const Entity* e : m->Entities(1)) {
          const auto M = prov->Eval(*e);
          p.push_back(M.sum());
          p.push_back(M.cwiseAbs().sum());
        }
      };
    };
    const int k = r.uni(0, 8);
    if (k < 5) {
      auto s = some_space()->space;
      wm = s->Mesh();
      o->kind = "provider_fe";
      if (k == 0) {
        using P = lf::fe::DiffusionElementMatrixProvider<double, decltype(f)>;
        cells(std::make_shared<P>(P(s, f)));
      } else if (k == 1) {
        using P = lf::fe::MassElementMatrixProvider<double, decltype(f)>;
        cells(std::make_shared<P>(P(s, f)));
      } else if (k == 2) {
        using P = lf::fe::ScalarLoadElementVectorProvider<double, decltype(one)>;
        cells(std::make_shared<P>(P(s, one)));
      } else if (k == 3) {
        edges(std::make_shared<lf::fe::MassEdgeMatrixProvider<double, decltype(one), lf::base::PredicateTrue>>(s, one));
      } else {
        edges(std::make_shared<lf::fe::ScalarLoadEdgeVectorProvider<double, decltype(f), lf::base::PredicateTrue>>(s, f));
      }
    } else {
      auto s = some_uspace()->uspace;
      wm = s->Mesh();
      o->kind = "provider_uscalfe";
      if (k == 5) {
        using P = lf::uscalfe::ReactionDiffusionElementMatrixProvider<double, decltype(f), decltype(one)>;
        cells(std::make_shared<P>(P(s, f, one)));
      } else if (k == 6) {
        using P = lf::uscalfe::ScalarLoadElementVectorProvider<double, decltype(f)>;
        cells(std::make_shared<P>(P(s, f)));
      } else if (k == 7) {
        edges(std::make_shared<lf::uscalfe::MassEdgeMatrixProvider<double, decltype(one), lf::base::PredicateTrue>>(s, one));
      } else {
        edges(std::make_shared<lf::uscalfe::ScalarLoadEdgeVectorProvider<double, decltype(f), lf::base::PredicateTrue>>(s, f));
      }
    }
    add(o);
  }
  void make_matrix() {
    auto o = std::make_shared<Obj>();
    o->kind = "matrix";
    using C = lf::assemble::COOMatrix<double>;
    auto s = some_space();
    const auto& dofh = s->space->LocGlobMap();
    auto box = std::make_shared<std::unique_ptr<C>>(std::make_unique<C>(dofh.NumDofs(), dofh.NumDofs()));
    lmu::MeshFunctionConstant<double> one(1.0);
    lf::fe::MassElementMatrixProvider prov(s->space, one);
    lf::assemble::AssembleMatrixLocally(0, dofh, dofh, prov, **box);
    o->print = [box](Print& p) {
      const auto A = (*box)->makeSparse();
      p.push_back(A.sum());
      p.push_back(A.norm());
      const VectorXd v = VectorXd::LinSpaced(A.cols(), -1, 2);
      const VectorXd w = (*box)->MatVecMult(1.0, v);
      p.insert(p.end(), w.data(), w.data() + w.size());
    };
    o->churn = [box](Rng& rr) {
      if (rr.coin()) {
        *box = std::make_unique<C>(**box);
      } else if (rr.coin()) {
        *box = std::make_unique<C>(std::move(**box));
      } else {
        auto n = std::make_unique<C>(2, 3);
        n->AddToEntry(1, 2, 4.0);
        *n = **box;
        *box = std::move(n);
      }
      event("moved");
      return true;
    };
    add(o);
  }
  void make_cache() {
    auto o = std::make_shared<Obj>();
    o->kind = "rule_cache";
    using Q = lf::quad::QuadRuleCache;
    struct S {
      std::unique_ptr<Q> c = std::make_unique<Q>();
      std::vector<std::pair<const lf::quad::QuadRule*, std::pair<RefEl, unsigned>>> refs;
    };
    auto s = std::make_shared<S>();
    auto ask = [s](Rng& rr) {
      const RefEl re = ref_of(rr.uni(2, 4));
      const unsigned d = rr.uni(0, 14);
      s->refs.push_back({&s->c->Get(re, d), {re, d}});
    };
    for (int i = 0; i < 4; ++i) ask(r);
    Obj* q = o.get();
    o->print = [s](Print& p) {
      for (auto& [ref, key] : s->refs) {
        p.push_back(ref->NumPoints());
        p.push_back(ref->Points().sum());
        p.push_back(ref->Weights().sum());
      }
    };
    o->churn = [s, q, ask](Rng& rr) {
      if (rr.coin()) {
        ask(rr);
        q->ref.clear();
        q->print(q->ref);
        event("cache_grown");
      } else {
        auto n = std::make_unique<Q>(std::move(*s->c));
        s->c = std::move(n);
        event("moved");
      }
      return true;
    };
    add(o);
  }
  void make_vtk() {
    // the writer keeps the mesh alive and writes when destroyed
    auto m = some_mesh();
    auto o = std::make_shared<Obj>();
    o->kind = "vtk_writer";
    const std::string fn = env().scratch + "/life" + tag + "_" + std::to_string(r.uni(0, 99)) + ".vtk";
    std::shared_ptr<lf::io::VtkWriter> w(new lf::io::VtkWriter(m->mesh, fn, 0, 1), [fn](lf::io::VtkWriter* x) {
      delete x;
      std::ifstream i(fn);
      std::string line;
      std::getline(i, line);
      MON_CHECK(line.rfind("# vtk DataFile", 0) == 0, "vtk_written", "writer destroyed after its mesh was released: '" << line << "'");
      i.close();
      std::filesystem::remove(fn);
    });
    int cnt = 0;
    if (r.coin()) w->setBinary(true);
    o->print = [](Print& p) { p.push_back(0); };
    std::weak_ptr<const Mesh> wm = m->mesh;
    auto counter = std::make_shared<int>(cnt);
    o->churn = [w, wm, counter](Rng& rr) {
      const auto mm = wm.lock();
      MON_REQUIRE(mm != nullptr, "writer_keeps_mesh", "");
      const std::string name = "d" + std::to_string(++*counter);
      if (rr.coin()) {
        lmu::CodimMeshDataSet<double> d(mm, 2, 1.0);
        w->WritePointData(name, d);
      } else {
        lmu::CodimMeshDataSet<int> d(mm, 0, 2);
        w->WriteCellData(name, d);
      }
      event("vtk_data");
      return true;
    };
    add(o);
  }
  void make_geometry() {
    // shapes made from shapes, alone in the world
    auto m = some_mesh();
    auto o = std::make_shared<Obj>();
    o->kind = "derived_shape";
    const unsigned cd = r.uni(0, 1);
    const auto ents = m->mesh->Entities(cd);
    const Entity* e = ents[r.uni(0, (int)ents.size() - 1)];
    std::shared_ptr<const lf::geometry::Geometry> g;
    if (r.coin()) {
      const int sc = r.uni(0, 2 - cd);
      g = e->Geometry()->SubGeometry(sc, r.uni(0, (int)e->RefEl().NumSubEntities(sc) - 1));
    } else {
      lf::refinement::Hybrid2DRefinementPattern pat(e->RefEl(), cd == 0 ? lf::refinement::rp_regular : lf::refinement::rp_split);
      auto ch = e->Geometry()->ChildGeometry(pat, 0);
      g = std::move(ch[r.uni(0, (int)ch.size() - 1)]);
    }
    o->print = [g](Print& p) {
      const MatrixXd x = g->RefEl().NodeCoords();
      const MatrixXd y = g->Global(x);
      p.insert(p.end(), y.data(), y.data() + y.size());
      p.push_back(g->IntegrationElement(x).sum());
      if (g->DimLocal() > 0) p.push_back(g->Jacobian(x).cwiseAbs().sum());
    };
    add(o);
  }
  void make_factory() {
    // one factory, several meshes, abandoned data
    auto o = std::make_shared<Obj>();
    o->kind = "factory";
    const Desc d = desc(), d2 = desc();
    auto f = std::make_shared<lf::mesh::hybrid2d::MeshFactory>(d.dw);
    feed(d, *f);
    add_mesh(f->Build(), "factory_mesh");
    if (r.coin() && d2.dw == d.dw) {
      feed(d2, *f);
      if (r.coin()) add_mesh(f->Build(), "factory_mesh");
    }
    o->print = [f](Print& p) { p.push_back(f->DimMesh() + f->DimWorld()); };
    add(o);
  }

  void make() {
    switch (r.uni(0, 19)) {
      case 0: case 1: return make_mesh();
      case 2: return make_hier();
      case 3: case 4: return make_level();
      case 5: return make_transfer();
      case 6: return make_dofh();
      case 7: case 8: return make_space();
      case 9: return make_fef();
      case 10: return make_gradf();
      case 11: return make_expr();
      case 12: return make_dataset();
      case 13: return make_boundary();
      case 14: case 15: return make_provider();
      case 16: return make_matrix();
      case 17: return make_cache();
      case 18: return make_vtk();
      default:
        switch (r.uni(0, 3)) {
          case 0: return make_geometry();
          case 1: return make_gmsh();
          case 2: return threaded ? make_geometry() : make_bad_file();
          default: return make_factory();
        }
    }
  }
  void verify(const ObjP& o) {
    Print p;
    if (!no_throw("answers", [&] { o->print(p); })) {
      violation("answers_refused", o->kind + " :" + log);
      return;
    }
    if (p.size() == 1 && p[0] == -77) return event("mesh_gone");
    if (o->ref.size() == 1 && o->ref[0] == -77) return;
    event("unchanged:" + o->kind);
    MON_CHECK(same(p, o->ref), "unchanged", o->kind << " answers differently (" << p.size() << "/" << o->ref.size() << ") after" << log);
  }
  void destroy(std::size_t i) {
    ObjP o = pool[i];
    for (auto& x : pool)
      for (auto& n : x->needs)
        if (n == o) return;  // still needed
    pool.erase(pool.begin() + (long)i);
    log += " -" + o->kind;
    h = hcomb(h, i * 17 + 3);
    event("destroyed");
  }
  void run(int ops) {
    for (int k = 0; k < ops; ++k) {
      const int c = r.uni(0, 9);
      if (pool.size() < 3 || (c < 5 && pool.size() < 16)) {
        make();
      } else if (c < 8) {
        const std::size_t i = r.uni(0, (int)pool.size() - 1);
        if (r.coin(0.4)) {
          // somebody's raw material: exactly the objects others were made from
          destroy(0);
        } else {
          destroy(i);
        }
      } else {
        auto o = r.pick(pool);
        if (o->churn && o->churn(r)) {
          log += " ~" + o->kind;
          verify(o);
        }
      }
      if (!pool.empty())
        for (int j = 0; j < 2; ++j) verify(r.pick(pool));
      if (step) step();
    }
    for (auto& o : pool) verify(o);
    // the rest goes away in random order, the survivors still answering
    while (!pool.empty()) {
      const std::size_t n = pool.size();
      destroy(r.uni(0, (int)n - 1));
      if (!pool.empty() && r.coin(0.5)) verify(r.pick(pool));
    }
  }
};
}  // namespace life
