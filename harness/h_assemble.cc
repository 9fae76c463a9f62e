// A01-A04: dof numbering, assembly, triplet matrices, fixing components
#include <lf/assemble/assemble.h>
#include <spdlog/sinks/null_sink.h>

#include "audit.h"

using namespace gen;
using mon::u64;
using lf::assemble::COOMatrix;
using lf::assemble::DofHandler;
using lf::assemble::DynamicFEDofHandler;
using lf::assemble::UniformFEDofHandler;
using cplx = std::complex<double>;

namespace {
// ---------------------------------------------------------------- A01 ------
struct Layout {
  bool uniform = true, reverse = true;
  std::map<RefEl, unsigned> map;
  u64 salt = 0;
  int hi = 4;
  std::string text;
  unsigned count(const Mesh& m, const Entity& e) const {
    if (uniform) {
      auto it = map.find(e.RefEl());
      return it == map.end() ? 0 : it->second;
    }
    const u64 h = mon::hcomb(salt, e.Codim() * 100000 + m.Index(e));
    if (h % 5 == 0) return 0;
    return (h >> 8) % (hi + 1);
  }
};
Layout random_layout(Rng& r) {
  Layout l;
  l.uniform = r.coin(0.6);
  l.reverse = !l.uniform || r.coin(0.75);
  if (l.uniform) {
    const int style = r.uni(0, 3);
    for (auto t : {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) {
      if (r.coin(0.1)) continue;  // left out: no dofs
      l.map[t] = style == 0 ? r.uni(0, 1) : r.uni(0, style == 1 ? 7 : 3);
    }
    if (style == 3) l.map = {{RefEl::kPoint(), 1}};
    l.text = "uniform";
    for (auto& [t, n] : l.map) l.text += " " + t.ToString() + ":" + std::to_string(n);
    if (!l.reverse) l.text += " keep";
  } else {
    l.salt = r.next();
    l.hi = r.uni(0, 6);
    l.text = "dynamic hi=" + std::to_string(l.hi);
  }
  return l;
}
std::shared_ptr<DofHandler> make_handler(Rng& r, const Layout& l, std::shared_ptr<const Mesh> m) {
  const Mesh& mm = *m;
  if (l.uniform) {
    UniformFEDofHandler h = l.reverse && r.coin() ? UniformFEDofHandler(m, l.map) : UniformFEDofHandler(m, l.map, l.reverse);
    if (r.coin(0.3)) {
      auto other = std::make_shared<UniformFEDofHandler>(m, UniformFEDofHandler::dof_map_t{{RefEl::kPoint(), 2}}, !l.reverse);
      *other = std::move(h);
      mon::event("dof.move_assign");
      return other;
    }
    return std::make_shared<UniformFEDofHandler>(std::move(h));
  }
  std::vector<std::vector<int>> asked(3);
  for (int c = 0; c < 3; ++c) asked[c].assign(mm.NumEntities(c), 0);
  auto f = [&](const Entity& e) -> unsigned {
    asked[e.Codim()][mm.Index(e)]++;
    return l.count(mm, e);
  };
  DynamicFEDofHandler h(m, f);
  for (auto& v : asked)
    for (int n : v) MON_CHECK(n >= 1, "dof.functor_asked", "");
  if (r.coin(0.3)) {
    auto other = std::make_shared<DynamicFEDofHandler>(m, [](const Entity&) { return 1; });
    *other = std::move(h);
    mon::event("dof.move_assign");
    return other;
  }
  return std::make_shared<DynamicFEDofHandler>(std::move(h));
}

void check_handler(const DofHandler& h, const Layout& l, const std::shared_ptr<const Mesh>& mp, const std::string& tag) {
  const Mesh& m = *mp;
  MON_CHECK(h.Mesh() == mp, "dof.mesh", tag);
  // expected numbers: nodes, edges, cells by index
  std::array<std::vector<std::vector<long>>, 3> own;
  long next = 0;
  std::vector<const Entity*> owner;
  for (int cd = 2; cd >= 0; --cd) {
    own[cd].resize(m.NumEntities(cd));
    for (unsigned i = 0; i < m.NumEntities(cd); ++i) {
      const Entity* e = m.EntityByIndex(cd, i);
      for (unsigned k = 0; k < l.count(m, *e); ++k) {
        own[cd][i].push_back(next++);
        owner.push_back(e);
      }
    }
  }
  MON_REQUIRE((long)h.NumDofs() == next, "dof.total", tag << " NumDofs " << h.NumDofs() << " expected " << next);
  std::vector<int> listed(next, 0);
  for (long k = 0; k < next; ++k)
    MON_CHECK(&h.Entity(k) == owner[k], "dof.entity", tag << " dof " << k);
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (auto* e : m.Entities(cd)) {
      const auto in = h.InteriorGlobalDofIndices(*e);
      const auto all = h.GlobalDofIndices(*e);
      MON_CHECK(h.NumInteriorDofs(*e) == in.size(), "dof.count_interior", tag << " codim " << cd << " " << m.Index(*e));
      MON_CHECK(h.NumLocalDofs(*e) == all.size(), "dof.count_local", tag << " codim " << cd << " " << m.Index(*e));
      const std::vector<long> gi(in.begin(), in.end()), ga(all.begin(), all.end());
      MON_CHECK(gi == own[cd][m.Index(*e)], "dof.interior", tag << " codim " << cd << " index " << m.Index(*e));
      for (long k : gi)
        if (k >= 0 && k < next) listed[k]++;
      std::vector<long> want;
      if (cd == 2) {
        want = own[2][m.Index(*e)];
      } else {
        const unsigned nodes = 2 - cd;  // relative codimension of nodes
        for (auto* p : e->SubEntities(nodes))
          for (long k : own[2][m.Index(*p)]) want.push_back(k);
        if (cd == 0) {
          const auto ed = e->SubEntities(1);
          const auto nd = e->SubEntities(2);
          for (std::size_t i = 0; i < ed.size(); ++i) {
            auto v = own[1][m.Index(*ed[i])];
            // orientation read off the end points, not from the orientations
            const bool back = ed[i]->SubEntities(1)[0] != nd[i];
            if (back && l.reverse) std::reverse(v.begin(), v.end());
            if (back && v.size() > 1) mon::event("dof.reversed_edge");
            want.insert(want.end(), v.begin(), v.end());
          }
        }
        for (long k : own[cd][m.Index(*e)]) want.push_back(k);
      }
      MON_CHECK(ga == want, "dof.local_list", tag << " codim " << cd << " index " << m.Index(*e) << " list of " << ga.size() << " differs");
    }
  for (long k = 0; k < next; ++k) MON_CHECK(listed[k] == 1, "dof.bijection", tag << " dof " << k << " interior to " << listed[k] << " entities");
}

void a01_case(Rng& r, u64) {
  Opts o;
  o.book = true;
  const Desc d = random_desc(r, o);
  std::shared_ptr<const Mesh> m = build(d);
  for (int i = 0; i < 3; ++i) {
    const Layout l = random_layout(r);
    const std::string tag = describe(d) + " layout " + l.text;
    const auto h = make_handler(r, l, m);
    check_handler(*h, l, m, tag);
    if (h->NumDofs() > 0)
      mon::must_fail("dof.bad_number", "Entity() beyond the last dof", [&] { (void)h->Entity(h->NumDofs()); });
    mon::sig(mon::hcomb(d.hash(), mon::hash_str(l.text)));
    if (i == 0) mon::sample(tag + " dofs=" + std::to_string(h->NumDofs()));
    // printing does not disturb and mentions the number of dofs
    std::ostringstream s;
    s << *h;
    for (unsigned c : {1u, 2u, 3u, 5u, 10u, 30u}) lf::assemble::PrintInfo(s, *h, c);
    MON_CHECK(s.str().find(std::to_string(h->NumDofs()) + " dofs") != std::string::npos, "dof.print", tag);
    check_handler(*h, l, m, tag + " (again)");
  }
}

// ---------------------------------------------------------------- A02 ------
template <class T>
T small(Rng& r);
template <>
double small<double>(Rng& r) { return r.uni(-50, 50); }
template <>
float small<float>(Rng& r) { return r.uni(-50, 50); }
template <>
int small<int>(Rng& r) { return r.uni(-50, 50); }
template <>
cplx small<cplx>(Rng& r) { return {double(r.uni(-50, 50)), double(r.uni(-50, 50))}; }

template <class T>
T poison() {
  if constexpr (std::is_same_v<T, int>) return 1 << 28;
  else return T(std::numeric_limits<double>::quiet_NaN());
}

template <class T>
struct Provider {
  const Mesh* m;
  const DofHandler *trial, *test;
  unsigned codim;
  u64 salt;
  double p_active;
  int extra;  // size of local matrices in excess
  std::map<const Entity*, Eigen::Matrix<T, -1, -1>> mats;
  std::map<const Entity*, int> evals, asked;
  bool active(const Entity& e) const { return (mon::hcomb(salt, m->Index(e)) % 1000) < 1000 * p_active; }
  bool isActive(const Entity& e) {
    MON_CHECK(e.Codim() == codim, "asm.codim", "asked about codim " << e.Codim() << " instead of " << codim);
    asked[&e]++;
    return active(e);
  }
  Eigen::Matrix<T, -1, -1> Eval(const Entity& e) {
    MON_CHECK(active(e), "asm.inactive_eval", "inactive entity evaluated");
    evals[&e]++;
    return mats.at(&e);
  }
};
template <class T>
struct VecProvider {
  Provider<T>* q;
  std::map<const Entity*, Eigen::Matrix<T, -1, 1>> vecs;
  std::map<const Entity*, int> evals;
  bool isActive(const Entity& e) {
    MON_CHECK(e.Codim() == q->codim, "asm.codim", "");
    return q->active(e);
  }
  Eigen::Matrix<T, -1, 1> Eval(const Entity& e) {
    MON_CHECK(q->active(e), "asm.inactive_eval", "inactive entity evaluated");
    evals[&e]++;
    return vecs.at(&e);
  }
};
// a target matrix of the user
template <class T>
struct DenseTarget {
  using Scalar = T;
  Eigen::Matrix<T, -1, -1> M;
  DenseTarget(unsigned r, unsigned c) : M(r, c) { M.setConstant(T(77)); }
  void setZero() { M.setZero(); }
  void AddToEntry(Eigen::Index i, Eigen::Index j, T v) { M(i, j) += v; }
};

template <class T>
void a02_type(Rng& r, const std::shared_ptr<const Mesh>& m, const DofHandler& trial, const DofHandler& test, const std::string& tag0) {
  Provider<T> p;
  p.m = m.get();
  p.trial = &trial;
  p.test = &test;
  p.codim = r.uni(0, 2);
  p.salt = r.next();
  p.p_active = r.coin(0.2) ? 0 : r.coin(0.3) ? 1 : r.real();
  p.extra = r.coin(0.7) ? 0 : r.uni(1, 3);
  const std::string tag = tag0 + " codim " + std::to_string(p.codim);
  VecProvider<T> v;
  v.q = &p;
  Eigen::Matrix<T, -1, -1> ref(test.NumDofs(), trial.NumDofs());
  ref.setZero();
  Eigen::Matrix<T, -1, 1> vref(test.NumDofs());
  vref.setZero();
  u64 hh = p.salt;
  for (auto* e : m->Entities(p.codim)) {
    const auto rows = test.GlobalDofIndices(*e);
    const auto cols = trial.GlobalDofIndices(*e);
    Eigen::Matrix<T, -1, -1> a(rows.size() + p.extra, cols.size() + p.extra);
    a.setConstant(poison<T>());
    Eigen::Matrix<T, -1, 1> b(rows.size() + p.extra);
    b.setConstant(poison<T>());
    for (std::size_t i = 0; i < rows.size(); ++i) {
      b(i) = small<T>(r);
      if (p.active(*e)) vref(rows[i]) += b(i);
      for (std::size_t j = 0; j < cols.size(); ++j) {
        a(i, j) = small<T>(r);
        if (p.active(*e)) ref(rows[i], cols[j]) += a(i, j);
      }
    }
    p.mats[e] = a;
    v.vecs[e] = b;
  }
  mon::sig(hh);
  auto counts = [&](std::map<const Entity*, int>& ev, int per) {
    for (auto* e : m->Entities(p.codim)) {
      const int want = p.active(*e) ? per : 0;
      MON_CHECK(ev[e] == want, "asm.evals", tag << " entity " << m->Index(*e) << " evaluated " << ev[e] << " times, expected " << want);
      mon::event(want ? "asm.active" : "asm.inactive");
    }
    ev.clear();
  };
  const bool same = &trial == &test;
  // fresh matrix
  {
    const auto A = lf::assemble::AssembleMatrixLocally<DenseTarget<T>>(p.codim, trial, test, p);
    MON_CHECK(A.M == ref, "asm.dense_new", tag);
    counts(p.evals, 1);
  }
  if constexpr (!std::is_same_v<T, int>) {
    const auto A = same && r.coin() ? lf::assemble::AssembleMatrixLocally<COOMatrix<T>>(p.codim, trial, p)
                                    : lf::assemble::AssembleMatrixLocally<COOMatrix<T>>(p.codim, trial, test, p);
    MON_CHECK(A.rows() == ref.rows() && A.cols() == ref.cols(), "asm.coo_size", tag << " " << A.rows() << "x" << A.cols());
    MON_CHECK(A.makeDense() == ref, "asm.coo_new", tag);
    if (ref.size() > 0) MON_CHECK((Eigen::Matrix<T, -1, -1>(A.makeSparse()) == ref), "asm.coo_sparse", tag);
    counts(p.evals, 1);
    // accumulation on top of given content
    COOMatrix<T> B(test.NumDofs(), trial.NumDofs());
    Eigen::Matrix<T, -1, -1> pre = Eigen::Matrix<T, -1, -1>::Zero(ref.rows(), ref.cols());
    if (ref.size() > 0)
      for (int k = r.uni(0, 8); k > 0; --k) {
        const int i = r.uni(0, ref.rows() - 1), j = r.uni(0, ref.cols() - 1);
        const T x = small<T>(r);
        B.AddToEntry(i, j, x);
        pre(i, j) += x;
      }
    const int times = r.uni(1, 3);
    for (int k = 0; k < times; ++k) lf::assemble::AssembleMatrixLocally(p.codim, trial, test, p, B);
    MON_CHECK(B.makeDense() == (pre + T(times) * ref).eval(), "asm.coo_accumulate", tag << " times " << times);
    counts(p.evals, times);
  }
  {
    DenseTarget<T> A(ref.rows(), ref.cols());
    lf::assemble::AssembleMatrixLocally(p.codim, trial, test, p, A);
    MON_CHECK(A.M == (ref.array() + T(77)).matrix().eval(), "asm.dense_accumulate", tag);
    counts(p.evals, 1);
  }
  // vectors
  using Vec = Eigen::Matrix<T, -1, 1>;
  if (test.NumDofs() > 0) {
    const Vec w = lf::assemble::AssembleVectorLocally<Vec>(p.codim, test, v);
    MON_CHECK(w.size() == vref.size() && w == vref, "asm.vector_new", tag);
    counts(v.evals, 1);
    Vec x(test.NumDofs());
    for (int i = 0; i < x.size(); ++i) x(i) = small<T>(r);
    const Vec x0 = x;
    lf::assemble::AssembleVectorLocally(p.codim, test, v, x);
    lf::assemble::AssembleVectorLocally(p.codim, test, v, x);
    MON_CHECK(x == (x0 + vref + vref).eval(), "asm.vector_accumulate", tag);
    counts(v.evals, 2);
  }
  // too small local matrices are refused
  if (r.coin(0.2) && p.p_active == 1) {
    for (auto* e : m->Entities(p.codim)) {
      const int nr = test.NumLocalDofs(*e), nc = trial.NumLocalDofs(*e);
      if (nr < 1 || nc < 1) continue;
      const bool short_rows = r.coin();
      p.mats[e].resize(short_rows ? nr - 1 : nr, short_rows ? nc : nc - 1);
      p.mats[e].setZero();
      mon::must_fail("asm.too_small", "local matrix smaller than the number of local dofs", [&] { lf::assemble::AssembleMatrixLocally<DenseTarget<T>>(p.codim, trial, test, p); });
      v.vecs[e].resize(nr - 1);
      Vec w(test.NumDofs());
      w.setZero();
      mon::must_fail("asm.too_small_vec", "local vector smaller than the number of local dofs", [&] { lf::assemble::AssembleVectorLocally(p.codim, test, v, w); });
      break;
    }
  }
}

// a handler of the user's own: the dofs of another one under other numbers
struct Renumbered final : DofHandler {
  std::shared_ptr<DofHandler> h;
  std::vector<unsigned> p, back;
  std::array<std::vector<std::vector<lf::assemble::gdof_idx_t>>, 3> all, in;
  using size_type = lf::assemble::size_type;
  using Ent = lf::mesh::Entity;
  Renumbered(Rng& r, std::shared_ptr<DofHandler> g) : h(std::move(g)) {
    for (int k : r.perm((int)h->NumDofs())) p.push_back(k);
    back.resize(p.size());
    for (unsigned k = 0; k < p.size(); ++k) back[p[k]] = k;
    auto m = h->Mesh();
    for (unsigned c = 0; c <= 2; ++c)
      for (unsigned i = 0; i < m->NumEntities(c); ++i) {
        const Ent& e = *m->EntityByIndex(c, i);
        all[c].emplace_back();
        in[c].emplace_back();
        for (auto k : h->GlobalDofIndices(e)) all[c].back().push_back(p[k]);
        for (auto k : h->InteriorGlobalDofIndices(e)) in[c].back().push_back(p[k]);
      }
  }
  size_type NumDofs() const override { return h->NumDofs(); }
  size_type NumLocalDofs(const Ent& e) const override { return h->NumLocalDofs(e); }
  size_type NumInteriorDofs(const Ent& e) const override { return h->NumInteriorDofs(e); }
  std::span<const lf::assemble::gdof_idx_t> GlobalDofIndices(const Ent& e) const override { return all[e.Codim()][h->Mesh()->Index(e)]; }
  std::span<const lf::assemble::gdof_idx_t> InteriorGlobalDofIndices(const Ent& e) const override { return in[e.Codim()][h->Mesh()->Index(e)]; }
  const lf::mesh::Entity& Entity(lf::assemble::gdof_idx_t k) const override { return h->Entity(back[k]); }
  std::shared_ptr<const lf::mesh::Mesh> Mesh() const override { return h->Mesh(); }
};

void a02_case(Rng& r, u64 idx) {
  Opts o;
  o.book = true;
  o.max_cells = 25;
  const Desc d = random_desc(r, o);
  std::shared_ptr<const Mesh> m = build(d);
  const Layout l1 = random_layout(r), l2 = random_layout(r);
  std::shared_ptr<DofHandler> h1 = make_handler(r, l1, m), h2;
  std::string t1 = l1.text, t2;
  const double pick = r.real();
  if (pick < 0.3) {
    h2 = h1;
    t2 = "same";
  } else if (pick < 0.5) {
    h2 = std::make_shared<Renumbered>(r, h1);
    t2 = "same, renumbered";
    mon::event("asm.renumbered");
  } else {
    h2 = make_handler(r, l2, m);
    t2 = l2.text;
  }
  if (r.coin(0.2)) {
    h1 = std::make_shared<Renumbered>(r, h1);
    t1 += ", renumbered";
  }
  if (r.coin(0.3)) {
    std::swap(h1, h2);
    std::swap(t1, t2);
  }
  const std::string tag = describe(d) + " trial " + t1 + " test " + t2;
  mon::sample(tag);
  mon::sig(mon::hcomb(d.hash(), mon::hash_str(l1.text + "/" + l2.text)));
  // log at the most detailed level now and then, into nothing
  const bool logs = idx % 7 == 0;
  auto& lg = *lf::assemble::AssembleMatrixLogger();
  const auto lvl = lg.level();
  auto sinks = lg.sinks();
  if (logs) {
    lg.sinks() = {std::make_shared<spdlog::sinks::null_sink_mt>()};
    lg.set_level(spdlog::level::trace);
  }
  switch (r.uni(0, 2)) {
    case 0: a02_type<double>(r, m, *h1, *h2, tag + " double"); break;
    case 1: a02_type<cplx>(r, m, *h1, *h2, tag + " complex"); break;
    default: a02_type<int>(r, m, *h1, *h2, tag + " int");
  }
  lg.set_level(lvl);
  lg.sinks() = sinks;
  if (r.coin(0.1)) {
    std::shared_ptr<const Mesh> m2 = build(d);
    const auto h3 = make_handler(r, l1, m2);
    Provider<double> p;
    p.m = m.get();
    p.codim = 0;
    p.salt = 0;
    p.p_active = 0;
    mon::must_fail("asm.other_mesh", "trial and test space on different meshes", [&] { lf::assemble::AssembleMatrixLocally<DenseTarget<double>>(0, *h1, *h3, p); });
  }
}

// ---------------------------------------------------------------- A03 ------
template <class T>
void a03_type(Rng& r, const char* ty) {
  int rows = r.uni(0, 6), cols = r.coin(0.4) ? rows : r.uni(0, 6);
  COOMatrix<T> A(rows, cols);
  using Mat = Eigen::Matrix<T, -1, -1>;
  using Vec = Eigen::Matrix<T, -1, 1>;
  Mat M = Mat::Zero(rows, cols);
  std::size_t nt = 0;
  std::vector<std::pair<int, int>> pos;
  std::string hist = std::string(ty) + " " + std::to_string(rows) + "x" + std::to_string(cols);
  auto rnd_vec = [&](int n) {
    Vec v(n);
    for (int i = 0; i < n; ++i) v(i) = small<T>(r);
    return v;
  };
  auto add = [&](COOMatrix<T>& X, Mat& Y, int i, int j, T x) {
    X.AddToEntry(i, j, x);
    if (i >= Y.rows() || j >= Y.cols()) {
      const Mat old = Y;
      Y = Mat::Zero(std::max<int>(i + 1, old.rows()), std::max<int>(j + 1, old.cols()));
      Y.topLeftCorner(old.rows(), old.cols()) = old;
      mon::event("coo.growth");
    }
    Y(i, j) += x;
  };
  auto check = [&](const COOMatrix<T>& X, const Mat& Y) {
    MON_CHECK(X.rows() == Y.rows() && X.cols() == Y.cols(), "coo.size", hist << ": " << X.rows() << "x" << X.cols() << " expected " << Y.rows() << "x" << Y.cols());
    const Mat D = X.makeDense();
    MON_REQUIRE(D.rows() == Y.rows() && D.cols() == Y.cols(), "coo.dense", hist);
    MON_CHECK(D == Y, "coo.dense", hist);
    if (Y.rows() > 0 && Y.cols() > 0) {
      const Eigen::SparseMatrix<T> S = X.makeSparse();
      MON_CHECK(S.rows() == Y.rows() && S.cols() == Y.cols() && Mat(S) == Y, "coo.sparse", hist);
    } else {
      mon::must_fail("coo.sparse_empty", "sparse matrix without rows or columns", [&] { (void)X.makeSparse(); });
    }
  };
  const int n = r.uni(1, 25);
  for (int k = 0; k < n; ++k) {
    switch (r.uni(0, 12)) {
      case 0: case 1: case 2: case 3: {
        if (M.size() == 0) break;
        const bool again = !pos.empty() && r.coin(0.4);
        const auto q = again ? r.pick(pos) : std::pair<int, int>{r.uni(0, M.rows() - 1), r.uni(0, M.cols() - 1)};
        add(A, M, q.first, q.second, small<T>(r));
        pos.push_back(q);
        hist += " add";
        ++nt;
        break;
      }
      case 4: {
        const int i = r.uni(0, M.rows() + 2), j = r.uni(0, M.cols() + 2);
        add(A, M, i, j, small<T>(r));
        pos.push_back({i, j});
        hist += " addfar";
        break;
      }
      case 5: {
        if (r.coin(0.7)) break;
        A.setZero();
        M.setZero();
        MON_CHECK(A.triplets().empty(), "coo.zero", hist);
        hist += " zero";
        break;
      }
      case 6: {
        const u64 salt = r.next();
        auto pred = [salt](Eigen::Index i, Eigen::Index j) { return mon::hcomb(salt, i * 100 + j) % 3 == 0; };
        A.setZero(pred);
        for (int i = 0; i < M.rows(); ++i)
          for (int j = 0; j < M.cols(); ++j)
            if (pred(i, j)) M(i, j) = T(0);
        for (auto& t : A.triplets()) MON_CHECK(!pred(t.row(), t.col()), "coo.zero_pred", hist);
        hist += " zeropred";
        break;
      }
      case 7: {
        // products: vectors may be longer than needed
        const Vec v = rnd_vec(M.cols() + r.uni(0, 2));
        const T a = small<T>(r);
        const Vec want = M * (a * v.head(M.cols()));
        const Vec got = A.MatVecMult(a, v);
        MON_CHECK(got.size() == want.size() && got == want, "coo.product", hist);
        Vec acc = rnd_vec(M.rows() + r.uni(0, 2));
        Vec w2 = acc;
        w2.head(M.rows()) += want;
        A.MatVecMult(a, v, acc);
        MON_CHECK(acc == w2, "coo.product_accumulate", hist);
        hist += " mult";
        break;
      }
      case 8: {
        if (M.cols() == 0 || M.rows() == 0) break;
        const Vec v = rnd_vec(M.cols() - 1), ok = rnd_vec(M.cols());
        Vec res = rnd_vec(M.rows() - 1), okr = rnd_vec(M.rows());
        mon::must_fail("coo.short_vec", "vector too short", [&] { (void)A.MatVecMult(T(1), v); });
        mon::must_fail("coo.short_vec2", "vector too short", [&] { A.MatVecMult(T(1), v, okr); });
        mon::must_fail("coo.short_result", "result too short", [&] { A.MatVecMult(T(1), ok, res); });
        hist += " refuse";
        break;
      }
      case 9: {
        // copies are independent
        COOMatrix<T> B(A);
        Mat N = M;
        if (r.coin()) {
          B = COOMatrix<T>(1, 1);
          B = A;
        }
        add(B, N, r.uni(0, 3), r.uni(0, 3), small<T>(r));
        check(B, N);
        if (r.coin(0.3)) {
          A = std::move(B);
          M = N;
        }
        hist += " copy";
        break;
      }
      case 10: {
        // triplets given directly
        if (M.size() == 0) break;
        const int i = r.uni(0, M.rows() - 1), j = r.uni(0, M.cols() - 1);
        const T x = small<T>(r);
        A.triplets().emplace_back(i, j, x);
        M(i, j) += x;
        hist += " triplet";
        break;
      }
      case 11: {
        if (A.triplets().size() < 2) break;
        // the order of the triplets does not matter
        auto& t = A.triplets();
        std::vector<int> p = r.perm((int)t.size());
        auto c = t;
        for (std::size_t i = 0; i < t.size(); ++i) t[i] = c[p[i]];
        hist += " shuffle";
        break;
      }
      default: {
        std::ostringstream s1, s2, cap;
        auto* old = std::cout.rdbuf(cap.rdbuf());
        A.PrintInfo(s1);
        s2 << A;
        std::cout.rdbuf(old);
        MON_CHECK(s1.str() == s2.str() && cap.str().empty(), "coo.print", hist);
        std::istringstream is(s1.str());
        std::string line;
        std::getline(is, line);
        MON_CHECK(line == std::to_string(M.rows()) + " x " + std::to_string(M.cols()) + " COO matrix", "coo.print", line);
        std::size_t cnt = 0;
        while (std::getline(is, line)) ++cnt;
        MON_CHECK(cnt == A.triplets().size(), "coo.print", hist);
        hist += " print";
      }
    }
    check(A, M);
  }
  mon::sig(hist);
  mon::sample(hist);
}
void a03_case(Rng& r, u64) {
  switch (r.uni(0, 3)) {
    case 0: a03_type<double>(r, "double"); break;
    case 1: a03_type<cplx>(r, "complex"); break;
    case 2: a03_type<float>(r, "float"); break;
    default: a03_type<int>(r, "int");
  }
}

// ---------------------------------------------------------------- A04 ------
template <class T>
T rval(Rng& r) {
  if constexpr (std::is_same_v<T, cplx>) return {r.real(-1, 1), r.real(-1, 1)};
  else return r.real(-1, 1);
}
template <class T>
void a04_type(Rng& r, const char* ty) {
  using Mat = Eigen::Matrix<T, -1, -1>;
  using Vec = Eigen::Matrix<T, -1, 1>;
  const int N = r.coin(0.1) ? 1 : r.uni(1, 14);
  const int style = r.uni(0, 2);  // symmetric, unsymmetric, hermitian
  Mat A0 = Mat::Zero(N, N);
  const double dens = r.real(0.1, 1);
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < i; ++j) {
      if (!r.coin(dens)) continue;
      const T x = rval<T>(r);
      A0(i, j) = x;
      A0(j, i) = style == 0 ? x : style == 1 ? (r.coin(0.2) ? T(0) : rval<T>(r)) : T(Eigen::numext::conj(x));
    }
  for (int i = 0; i < N; ++i) A0(i, i) = T(1.0 + A0.row(i).cwiseAbs().sum() + A0.col(i).cwiseAbs().sum());
  COOMatrix<T> A(N, N);
  std::vector<std::tuple<int, int, T>> tr;
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j) {
      if (A0(i, j) == T(0)) continue;
      int parts = r.coin(0.3) ? r.uni(2, 3) : 1;
      T rest = A0(i, j);
      while (--parts > 0) {
        const T x = rval<T>(r);
        tr.emplace_back(i, j, x);
        rest -= x;
      }
      tr.emplace_back(i, j, rest);
    }
  r.shuffle(tr);
  for (auto& [i, j, x] : tr) A.AddToEntry(i, j, x);
  A0 = A.makeDense();
  if (style == 0) A0 = (0.5 * (A0 + A0.transpose())).eval();
  Vec b0(N), val(N);
  std::vector<bool> flag(N, false);
  const int fs = r.uni(0, 4);
  for (int i = 0; i < N; ++i) {
    b0(i) = rval<T>(r);
    val(i) = r.coin(0.15) ? T(0) : T(rval<T>(r) * (r.coin(0.1) ? 1e3 : 1.0));
    flag[i] = fs == 0 ? false : fs == 1 ? true : r.coin(fs == 2 ? 0.2 : 0.5);
  }
  const double scale = 1.0 + val.cwiseAbs().maxCoeff();
  std::string tag = std::string(ty) + " N=" + std::to_string(N) + " style " + std::to_string(style) + " flags ";
  for (int i = 0; i < N; ++i) tag += flag[i] ? '1' : '0';
  mon::sig(tag);
  mon::sample(tag);
  auto sel = [&](Eigen::Index i) -> std::pair<bool, T> {
    MON_CHECK(i >= 0 && i < N, "fix.selector_range", tag << " asked for " << i);
    return {flag[i], flag[i] ? val(i) : T(std::numeric_limits<double>::quiet_NaN())};
  };
  std::vector<Vec> sol;
  for (int variant = 0; variant < 3; ++variant) {
    const std::string vt = tag + " variant " + std::to_string(variant);
    COOMatrix<T> B(A);
    Vec b = b0;
    if (variant == 0) {
      if (r.coin()) {
        lf::assemble::FixFlaggedSolutionComponents<T>(sel, B, b);
      } else {
        std::function<std::pair<bool, T>(Eigen::Index)> f = sel;
        lf::assemble::FixFlaggedSolutionComponents<T>(f, B, b);
      }
    } else if (variant == 1) {
      lf::assemble::FixFlaggedSolutionCompAlt<T>(sel, B, b);
    } else {
      lf::assemble::fixed_components_t<T> pr;
      for (int i : r.perm(N))
        if (flag[i]) pr.emplace_back(i, val(i));
      lf::assemble::FixSolutionComponentsLse<T>(pr, B, b);
    }
    MON_REQUIRE(B.rows() == N && B.cols() == N && b.size() == N, "fix.size", vt);
    const Mat M = B.makeDense();
    const Vec x = M.fullPivLu().solve(b);
    for (int i = 0; i < N; ++i) {
      if (flag[i]) {
        MON_CHECK(std::abs(x(i) - val(i)) <= 1e-10 * scale, "fix.value", vt << " component " << i << " is " << x(i) << " instead of " << val(i));
        // the row says exactly x_i = value
        Mat row = Mat::Zero(1, N);
        row(0, i) = T(1);
        MON_CHECK(M.row(i) == row && b(i) == val(i), "fix.row", vt << " row " << i);
      } else {
        const T res = (A0.row(i) * x)(0) - b0(i);
        MON_CHECK(std::abs(res) <= 1e-9 * scale * (1 + A0.row(i).cwiseAbs().sum()), "fix.equation", vt << " row " << i << " residual " << std::abs(res));
        if (variant > 0) {
          MON_CHECK(b(i) == b0(i) && M.row(i).isApprox(A0.row(i), 1e-13), "fix.row_kept", vt << " row " << i);
        }
      }
    }
    if (variant == 0) {
      if (style == 0) MON_CHECK((M - M.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * A0.cwiseAbs().maxCoeff(), "fix.symmetric", vt);
      if (style == 2) MON_CHECK((M - M.adjoint()).cwiseAbs().maxCoeff() <= 1e-12 * A0.cwiseAbs().maxCoeff(), "fix.hermitian", vt);
      for (int i = 0; i < N; ++i)
        if (flag[i])
          for (int k = 0; k < N; ++k)
            if (k != i) MON_CHECK(M(k, i) == T(0), "fix.column", vt);
    }
    sol.push_back(x);
  }
  for (int v = 1; v < 3; ++v) MON_CHECK((sol[v] - sol[0]).cwiseAbs().maxCoeff() <= 1e-9 * scale, "fix.variants_agree", tag << " variant " << v);
  if (r.coin(0.1)) {
    COOMatrix<T> B(A);
    Vec b = Vec::Zero(N + 1);
    mon::must_fail("fix.bad_size", "right-hand side of wrong length", [&] { lf::assemble::FixFlaggedSolutionComponents<T>(sel, B, b); });
    mon::must_fail("fix.bad_size2", "right-hand side of wrong length", [&] { lf::assemble::FixFlaggedSolutionCompAlt<T>(sel, B, b); });
    COOMatrix<T> C(N, N + 1);
    Vec c = Vec::Zero(N + 1);
    mon::must_fail("fix.not_square", "rectangular matrix", [&] { lf::assemble::FixFlaggedSolutionComponents<T>(sel, C, c); });
  }
}
void a04_case(Rng& r, u64) {
  if (r.coin(0.6)) a04_type<double>(r, "double");
  else a04_type<cplx>(r, "complex");
}
}  // namespace

void mon::register_all() {
  stream("A01", "layouts", 500, 15000, a01_case);
  stream("A02", "assembly", 500, 15000, a02_case);
  stream("A03", "histories", 6000, 200000, a03_case);
  stream("A04", "systems", 6000, 200000, a04_case);
  expect("A01", {"dof.reversed_edge", "dof.move_assign", "dof.local_list"});
  expect("A02", {"asm.renumbered", "asm.active", "asm.inactive", "asm.coo_accumulate", "asm.vector_accumulate"});
  expect("A03", {"coo.growth", "coo.product", "coo.product_accumulate", "coo.zero_pred", "coo.sparse"});
  expect("A04", {"fix.value", "fix.equation", "fix.symmetric", "fix.variants_agree"});
}
