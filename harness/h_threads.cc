// X02: several threads. Everything the threads record stays in the thread until
// it has ended, so that the monitors order nothing the library does not order.
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <thread>

#include "life.h"

using namespace life;

namespace {
// order in which the threads got on: relaxed, hence invisible to the race detector
struct Clock {
  std::atomic<unsigned> t{0};
  unsigned tick() { return t.fetch_add(1, std::memory_order_relaxed); }
};
struct Gate {  // lets the threads go at the same moment
  std::atomic<int> n{0};
  void wait(int all) {
    n.fetch_add(1);
    while (n.load() < all) std::this_thread::yield();
  }
};
void dither(Rng& r) {
  const int k = r.uni(0, 9);
  if (k < 3) std::this_thread::yield();
  if (k == 3) ::usleep(r.uni(1, 200));
}
struct Task {
  std::string name;
  std::function<void(Print&)> f;
};
struct Thread {
  std::vector<std::pair<int, Print>> got;
  std::vector<unsigned> ticks;
  std::map<std::string, u64> events;
  std::vector<std::pair<std::string, std::string>> viols;
  std::string error;
  void publish() {
    for (auto& [k, n] : events) event(k, n);
    for (auto& [k, m] : viols) violation(k, m);
    if (!error.empty()) violation("thread_failed", error);
  }
};
template <class F>
void guarded(Thread& th, F&& f) {
  ThreadLog l;
  try {
    f();
  } catch (const CaseAborted&) {
  } catch (const CaseDiscarded&) {
    th.error = "discarded";
  } catch (const std::exception& e) {
    th.error = e.what();
  }
  l.stop();
  th.events = l.events;
  th.viols = l.viols;
}
u64 interleaving(const std::vector<Thread>& ths) {
  std::vector<std::pair<unsigned, int>> all;
  for (std::size_t i = 0; i < ths.size(); ++i)
    for (unsigned t : ths[i].ticks) all.push_back({t, (int)i});
  std::sort(all.begin(), all.end());
  u64 h = ths.size();
  int switches = 0, last = -1;
  for (auto& [t, i] : all) {
    h = hcomb(h, i);
    if (i != last) ++switches;
    last = i;
  }
  event("context_switches", switches);
  return h;
}

// questions about shared objects; everything used is captured by the task
std::vector<Task> questions(World& w, u64 seed) {
  std::vector<Task> ts;
  for (auto& o : w.pool) {
    if (o->kind.rfind("provider", 0) == 0 || o->kind == "vtk_writer" || o->kind == "factory") continue;
    ts.push_back({o->kind, [o](Print& p) { o->print(p); }});
    if (o->mesh) {
      const MeshP m = o->mesh;
      ts.push_back({"boundary", [m](Print& p) {
                      const auto f = lmu::flagEntitiesOnBoundary(m);
                      for (unsigned cd = 0; cd <= 2; ++cd)
                        for (const Entity* e : m->Entities(cd)) p.push_back(f(*e));
                      const auto c = lmu::CountNumSuperEntities(m, 2, 2);
                      for (const Entity* e : m->Entities(2)) p.push_back(c(*e));
                    }});
      ts.push_back({"shapes", [m](Print& p) {
                      for (unsigned cd = 0; cd <= 1; ++cd)
                        for (const Entity* e : m->Entities(cd)) {
                          p.push_back(lf::geometry::Volume(*e->Geometry()));
                          const lf::refinement::Hybrid2DRefinementPattern pat(e->RefEl(), cd == 0 ? lf::refinement::rp_regular : lf::refinement::rp_split);
                          for (auto& g : e->Geometry()->ChildGeometry(pat, 0)) p.push_back(g->Global(g->RefEl().NodeCoords()).sum());
                        }
                    }});
      ts.push_back({"integrate_global", [m](Print& p) {
                      if (m->DimWorld() != 2) return;
                      const lmu::MeshFunctionGlobal f([](const VectorXd& x) { return x(0) * x(1) + 1; });
                      p.push_back(lf::fe::IntegrateMeshFunction(*m, f, 4));
                    }});
      ts.push_back({"own_space", [m](Print& p) {
                      const lf::fe::HierarchicScalarFESpace<double> s(m, 3U);
                      space_print(s, p);
                    }});
      ts.push_back({"print", [m](Print& p) {
                      std::ostringstream os;
                      for (const Entity* e : m->Entities(0)) os << *e << " " << e->RefEl();
                      lmu::PrintInfo(os, *m, 11);
                      p.push_back(os.str().size());
                      p.push_back((double)(hash_str(os.str()) % 1000003));
                    }});
      ts.push_back({"vtk", [m](Print& p) {
                      const std::string fn = env().scratch + "/t" + std::to_string(::getpid()) + "_" + std::to_string(std::hash<std::thread::id>()(std::this_thread::get_id())) + ".vtk";
                      {
                        lf::io::VtkWriter v(m, fn);
                        v.WriteCellData("c", lmu::CodimMeshDataSet<int>(m, 0, 3));
                      }
                      std::ifstream in(fn);
                      std::stringstream ss;
                      ss << in.rdbuf();
                      p.push_back(ss.str().size());
                      std::filesystem::remove(fn);
                    }});
    }
    if (o->hier) {
      const auto h = o->hier;
      ts.push_back({"hierarchy_records", [h](Print& p) {
                      const MeshHierarchy& c = *h;
                      for (unsigned l = 0; l + 1 < c.NumLevels(); ++l) {
                        const auto& ci = c.CellChildInfos(l);
                        for (auto& x : ci) p.push_back((int)x.ref_pat_ * 100.0 + (double)x.child_cell_idx.size());
                        for (auto& x : c.EdgeChildInfos(l)) p.push_back((int)x.ref_pat_);
                        for (auto& x : c.PointChildInfos(l)) p.push_back(x.child_point_idx);
                        const auto m = c.getMesh(l + 1);
                        for (unsigned cd = 0; cd <= 2; ++cd)
                          for (const Entity* e : m->Entities(cd))
                            if (const auto* g = c.GeometryInParent(l + 1, *e)) p.push_back(g->Global(e->RefEl().NodeCoords()).sum());
                      }
                    }});
    }
    if (o->space) {
      const auto s = o->space;
      ts.push_back({"projection", [s](Print& p) {
                      const lmu::MeshFunctionGlobal f([](const VectorXd& x) { return std::sin(x(0)) + x(1); });
                      const VectorXd v = lf::fe::NodalProjection<double>(*s, f);
                      p.insert(p.end(), v.data(), v.data() + v.size());
                    }});
      ts.push_back({"assembly", [s](Print& p) {
                      const lmu::MeshFunctionConstant<double> one(1.0);
                      const auto& d = s->LocGlobMap();
                      lf::assemble::COOMatrix<double> A(d.NumDofs(), d.NumDofs());
                      lf::fe::MassElementMatrixProvider prov(std::shared_ptr<const life::Space>(s), one);
                      lf::assemble::AssembleMatrixLocally(0, d, d, prov, A);
                      VectorXd b = VectorXd::Zero(d.NumDofs());
                      lf::fe::ScalarLoadElementVectorProvider load(std::shared_ptr<const life::Space>(s), one);
                      lf::assemble::AssembleVectorLocally(0, d, load, b);
                      const auto S = A.makeSparse();
                      p.push_back(S.norm());
                      p.push_back(S.sum());
                      p.insert(p.end(), b.data(), b.data() + b.size());
                    }});
      ts.push_back({"flags", [s](Print& p) {
                      const auto bd = lmu::flagEntitiesOnBoundary(s->Mesh());
                      const lmu::MeshFunctionConstant<double> two(2.0);
                      const auto f = lf::fe::InitEssentialConditionFromFunction(*s, lf::base::PredicateTrue{}, two);
                      for (auto& [a, b] : f) p.push_back(a ? b : -1);
                      const lf::fe::MeshFunctionFE<double, double> u(s, VectorXd::Ones(s->LocGlobMap().NumDofs()));
                      p.push_back(lf::fe::IntegrateMeshFunction(*s->Mesh(), u, 3));
                    }});
    }
  }
  const unsigned deg = 1 + seed % 60;
  ts.push_back({"rules", [deg](Print& p) {
                  for (int n = 2; n <= 4; ++n) {
                    const auto q = lf::quad::make_QuadRule(ref_of(n), deg);
                    p.push_back(q.Points().sum());
                    p.push_back(q.Weights().sum());
                    const auto z = lf::quad::make_QuadRuleNodal(ref_of(n));
                    p.push_back(z.Points().sum());
                  }
                  const auto g = lf::quad::make_QuadRule(RefEl::kSegment(), 2 * deg);
                  p.push_back(g.Points().sum());
                }});
  ts.push_back({"elements", [deg](Print& p) {
                  for (int n = 1; n <= 4; ++n) {
                    const RefEl re = ref_of(n);
                    for (unsigned cd = 0; cd <= re.Dimension(); ++cd)
                      for (unsigned i = 0; i < re.NumSubEntities(cd); ++i) p.push_back(re.SubType(cd, i).Id());
                    p.push_back(re.NodeCoords().size() ? re.NodeCoords().sum() : 0);
                    p.push_back((double)re.ToString().size());
                  }
                  const lf::uscalfe::FeLagrangeO3Tria<double> t;
                  const lf::uscalfe::FeLagrangeO2Quad<double> q;
                  const lf::uscalfe::FeLagrangeO3Segment<double> s;
                  p.push_back(t.EvaluationNodes().sum());
                  p.push_back(q.EvalReferenceShapeFunctions(q.EvaluationNodes()).sum());
                  p.push_back(s.GradientsReferenceShapeFunctions(s.EvaluationNodes()).cwiseAbs().sum());
                }});
  ts.push_back({"timer", [](Print& p) {
                  lf::base::Timer t;
                  t.Stop();
                  const auto e = t.Elapsed();
                  p.push_back(t.IsStopped());
                  // clock ticks: the times of a short span are small multiples
                  p.push_back(e.user.count() >= 0 && e.user.count() < 100000000000LL && e.system.count() >= 0);
                  p.push_back(!t.Format().empty());
                }});
  return ts;
}

void populate(World& w, bool small) {
  w.threaded = true;
  const int n = small ? 4 : 9;
  w.make_mesh();
  w.make_hier();
  for (int i = 0; i < n; ++i) {
    switch (w.r.uni(0, 9)) {
      case 0: w.make_level(); break;
      case 1: w.make_dofh(); break;
      case 2: case 3: w.make_space(); break;
      case 4: w.make_fef(); break;
      case 5: w.make_gradf(); break;
      case 6: w.make_expr(); break;
      case 7: w.make_transfer(); break;
      case 8: w.make_dataset(); break;
      default: w.r.coin() ? w.make_matrix() : w.make_cache();
    }
  }
}

void shared_reads(u64 seed, bool small) {
  Rng r(seed);
  const int nt = r.uni(2, 6);
  const u64 ws = r.next();
  Rng ra(ws);
  World a(ra, false);
  a.tag = "a";
  populate(a, small);
  const auto ta = questions(a, seed);
  std::vector<Thread> th(nt);
  std::vector<u64> seeds;
  for (int i = 0; i < nt; ++i) seeds.push_back(r.next());
  // often: everybody asks the same in the same order, i.e. meets at the same places
  const bool lockstep = r.coin(0.4);
  const int len = small ? 6 : thorough() ? 30 : 14;
  Gate gate;
  Clock clock;
  {
    std::vector<std::thread> run;
    for (int i = 0; i < nt; ++i)
      run.emplace_back([&, i] {
        Rng rt(lockstep ? seeds[0] : seeds[i]), rd(seeds[i]);
        guarded(th[i], [&] {
          gate.wait(nt);
          for (int k = 0; k < len; ++k) {
            const int j = rt.uni(0, (int)ta.size() - 1);
            th[i].ticks.push_back(clock.tick());
            Print p;
            ta[j].f(p);
            th[i].got.push_back({j, std::move(p)});
            event("task:" + ta[j].name);
            dither(rd);
          }
        });
      });
    for (auto& t : run) t.join();
  }
  sig(interleaving(th));
  // the twin is asked by one thread
  Rng rb(ws);
  World b(rb, false);
  b.tag = "b";
  populate(b, small);
  const auto tb = questions(b, seed);
  MON_REQUIRE(ta.size() == tb.size(), "twin", ta.size() << " " << tb.size());
  std::map<int, Print> ref;
  for (auto& t : th) {
    t.publish();
    for (auto& [j, p] : t.got) {
      auto it = ref.find(j);
      if (it == ref.end()) {
        Print q;
        tb[j].f(q);
        it = ref.emplace(j, std::move(q)).first;
      }
      MON_CHECK(same(p, it->second), "same_as_sequential", "question '" << ta[j].name << "' (" << p.size() << " / " << it->second.size() << " answers) among" << a.log);
    }
  }
  for (auto& o : a.pool) a.verify(o);
}

// every thread its own world, some starting from shared objects
void own_worlds(u64 seed, bool small) {
  Rng r(seed);
  const int nt = r.uni(2, 6);
  const u64 ws = r.next();
  const bool share = r.coin(0.6), same_program = r.coin(0.3);
  std::vector<u64> seeds;
  for (int i = 0; i < nt; ++i) seeds.push_back(same_program && i ? seeds[0] : r.next());
  const int ops = small ? 5 : thorough() ? 30 : 12;
  struct Result {
    std::vector<Print> trace;
    std::string log;
  };
  auto go = [&](std::vector<Result>& res, std::vector<Thread>* th) {
    Rng rs(ws);
    World base(rs, false);
    base.threaded = true;
    base.tag = "s";
    if (share) {
      base.make_mesh();
      base.make_space();
      base.make_hier();
      base.make_level();
    }
    Gate gate;
    Clock clock;
    auto one = [&](int i) {
      Rng rt(seeds[i]), rd(seeds[i] ^ 5);
      World w(rt, false);
      w.threaded = true;
      w.tag = std::to_string(i);
      w.trace = &res[i].trace;
      if (share)
        for (auto& o : base.pool) {
          if (o->hier) continue;  // refining it is not a query
          auto c = std::make_shared<Obj>();
          c->kind = "shared_" + o->kind;
          c->mesh = o->mesh;
          c->space = o->space;
          c->uspace = o->uspace;
          c->print = o->print;
          w.add(c);
        }
      if (th)
        w.step = [&, i] {
          (*th)[i].ticks.push_back(clock.tick());
          dither(rd);
        };
      w.run(ops);
      res[i].log = w.log;
    };
    if (th) {
      std::vector<std::thread> run;
      for (int i = 0; i < nt; ++i)
        run.emplace_back([&, i] {
          guarded((*th)[i], [&] {
            gate.wait(nt);
            one(i);
          });
        });
      for (auto& t : run) t.join();
    } else {
      for (int i = 0; i < nt; ++i) one(i);
    }
  };
  std::vector<Result> par(nt), seq(nt);
  std::vector<Thread> th(nt);
  go(par, &th);
  sig(interleaving(th));
  for (auto& t : th) t.publish();
  go(seq, nullptr);
  for (int i = 0; i < nt; ++i) {
    bool ok = par[i].trace.size() == seq[i].trace.size() && par[i].log == seq[i].log;
    for (std::size_t k = 0; ok && k < par[i].trace.size(); ++k) ok = same(par[i].trace[k], seq[i].trace[k]);
    MON_CHECK(ok, "own_as_sequential", "thread " << i << " of " << nt << " :" << par[i].log << " || alone :" << seq[i].log);
  }
}

// a fresh process: first use of everything happens in the threads
void cold(Rng& rng, u64 idx) {
  const u64 s = rng.next();
  int fd[2];
  MON_REQUIRE(::pipe(fd) == 0, "pipe", "");
  const pid_t pid = ::fork();
  if (pid == 0) {
    ::close(fd[0]);
    std::string out;
    {
      // all threads ask questions that need no object first
      Rng r(s);
      const int nt = r.uni(2, 6);
      std::vector<Thread> th(nt);
      Gate gate;
      std::vector<u64> seeds;
      for (int i = 0; i < nt; ++i) seeds.push_back(r.next());
      const bool worlds = idx % 2;
      std::vector<std::thread> run;
      for (int i = 0; i < nt; ++i)
        run.emplace_back([&, i] {
          Rng rt(worlds ? seeds[i] : seeds[0]);
          guarded(th[i], [&] {
            World w(rt, false);
            w.threaded = true;
            w.tag = "c" + std::to_string(i);
            gate.wait(nt);
            auto ts = questions(w, s);
            for (int k = 0; k < 2; ++k)
              for (auto& t : ts) {
                Print p;
                t.f(p);
                if (t.name == "timer") MON_CHECK(p.size() == 3 && p[1] == 1, "timer_value", "");
              }
            if (rt.coin()) {
              w.run(4);
            } else {
              populate(w, true);
              for (auto& t : questions(w, s)) {
                Print p;
                t.f(p);
              }
            }
          });
        });
      for (auto& t : run) t.join();
      for (auto& t : th) {
        for (auto& [k, m] : t.viols) out += k + ": " + m + "\n";
        if (!t.error.empty()) out += "failed: " + t.error + "\n";
      }
    }
    if (!out.empty()) (void)!::write(fd[1], out.data(), std::min<std::size_t>(out.size(), 4000));
    ::close(fd[1]);
    ::_exit(0);
  }
  ::close(fd[1]);
  std::string got;
  char buf[4096];
  ssize_t n;
  while ((n = ::read(fd[0], buf, sizeof buf)) > 0) got.append(buf, (std::size_t)n);
  ::close(fd[0]);
  int st = 0;
  ::waitpid(pid, &st, 0);
  event("cold_process");
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) ::_exit(99);  // the report is in the log
  MON_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "cold_exit", "status " << st);
  MON_CHECK(got.empty(), "cold_result", got);
  sig(s);
}
}  // namespace

namespace mon {
void register_all() {
  stream("X02", "cold", 64, 800, cold);
  stream("X02", "shared", 160, 3000, [](Rng& r, u64) { shared_reads(r.next(), false); });
  stream("X02", "own", 96, 1500, [](Rng& r, u64) { own_worlds(r.next(), false); });
  expect("X02", {"cold_process", "same_as_sequential", "own_as_sequential", "context_switches", "task:mesh", "task:hierarchy", "task:hierarchy_records", "task:assembly", "task:projection", "task:rules", "task:vtk", "task:print", "task:own_space", "task:timer", "task:fe_function", "task:expression", "task:transfer", "unchanged"});
}
}  // namespace mon
