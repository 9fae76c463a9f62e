// I01: Gmsh files of all encodings are read faithfully; I02: damaged ones refused.
#include <lf/io/io.h>
#include <unistd.h>

#include <fstream>
#include <iostream>

#include "gmshfile.h"

// A damaged count may ask for any amount of memory: refuse like a small machine.
void* operator new(std::size_t n) {
  void* p = n > (std::size_t(1) << 30) ? nullptr : std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }

using namespace mon;
using namespace gmshf;
using lf::base::RefEl;
using lf::mesh::Entity;

namespace {
struct Quiet {  // the parsers report errors on std::cout
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
};
std::string store(const std::string& s) {
  static int k = 0;
  const std::string fn = env().scratch + "/m" + std::to_string(++k % 4) + ".msh";
  std::ofstream o(fn, std::ios::binary | std::ios::trunc);
  o.write(s.data(), (std::streamsize)s.size());
  return fn;
}
std::vector<unsigned> clean(std::vector<unsigned> v) {
  v.erase(std::remove(v.begin(), v.end(), 0U), v.end());
  return v;
}
std::string gstr(const std::vector<unsigned>& v) {
  std::string s = "{";
  for (unsigned x : v) s += std::to_string(x) + " ";
  return s + "}";
}
template <class F>
bool fails(F&& f) {
  try {
    f();
  } catch (const AssertFired&) {
    return true;
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

void compare(Rng& r, const Model& m, const File& f, const lf::io::GmshReader& rd) {
  const Desc& d = m.d;
  const std::string tag = f.name() + " " + gen::describe(d);
  const auto mesh = rd.mesh();
  gen::audit(*mesh);
  const double tol = (f.enc == text ? 1e-13 : 0.0) * (d.P.cwiseAbs().maxCoeff() + d.diam());
  const auto ec = d.edge_cells();
  MON_REQUIRE((int)mesh->NumEntities(2) == d.np() && mesh->NumEntities(1) == ec.size() && mesh->NumEntities(0) == d.cells.size() && (int)mesh->DimWorld() == d.dw, "counts", tag << " points " << mesh->NumEntities(2) << "/" << d.np() << " edges " << mesh->NumEntities(1) << "/" << ec.size() << " cells " << mesh->NumEntities(0) << "/" << d.cells.size());
  // points
  std::vector<int> at(d.np(), -1);  // mesh index -> description
  std::vector<char> used(d.np(), 0);
  for (const Entity* p : mesh->Entities(2)) {
    const VectorXd x = gen::node_pos(*p);
    int best = 0;
    for (int i = 1; i < d.np(); ++i)
      if ((d.P.col(i) - x).norm() < (d.P.col(best) - x).norm()) best = i;
    MON_REQUIRE((d.P.col(best) - x).cwiseAbs().maxCoeff() <= tol && !used[best], "point", tag << " " << mstr(x) << " nearest " << mstr(d.P.col(best)));
    used[best] = 1;
    at[mesh->Index(*p)] = best;
  }
  // expected groups
  std::map<int, std::set<unsigned>> gp, gc;
  std::map<Edge2, std::set<unsigned>> ge;
  std::map<int, const Elem*> pc;
  for (auto& e : m.elems) {
    const auto& g = m.ent.at({e.dim, e.etag});
    if (e.cell >= 0) gc[e.cell].insert(g.begin(), g.end());
    if (e.point >= 0) gp[e.point].insert(g.begin(), g.end());
    if (e.edge.first >= 0) ge[e.edge].insert(g.begin(), g.end());
  }
  auto groups = [&](const Entity& e, const std::set<unsigned>& want, const std::string& what) {
    const auto got = rd.PhysicalEntityNr(e);
    const std::vector<unsigned> w(want.begin(), want.end());
    MON_CHECK(clean(got) == w, "groups", tag << " " << what << " has " << gstr(got) << " instead of " << gstr(w));
    for (unsigned k : {1U, 2U, 3U, 7U, 12U, 100U, 4711U, 5U}) MON_CHECK(rd.IsPhysicalEntity(e, k) == (want.count(k) > 0), "group_member", tag << " " << what << " group " << k);
    event(want.size() > 1 ? "several_groups" : want.empty() ? "no_group" : "one_group");
  };
  for (const Entity* p : mesh->Entities(2)) {
    const int i = at[mesh->Index(*p)];
    groups(*p, gp[i], "point " + std::to_string(i));
  }
  for (const Entity* e : mesh->Entities(1)) {
    const auto s = e->SubEntities(1);
    const int a = at[mesh->Index(*s[0])], b = at[mesh->Index(*s[1])];
    const Edge2 k = ekey(a, b);
    MON_REQUIRE(ec.count(k), "edge", tag << " edge " << a << "," << b);
    groups(*e, ge[k], "edge " + std::to_string(a) + "," + std::to_string(b));
    const MatrixXd x = gen::ref_points(r, 2, 3);
    MatrixXd c(d.dw, 3);
    c << d.P.col(a), d.P.col(b), d.midpoint(a, b);
    MON_CHECK((e->Geometry()->Global(x) - gen::shape_global(2, 2, c, x)).cwiseAbs().maxCoeff() <= 1e-13 * (d.P.cwiseAbs().maxCoeff() + d.diam()), "edge_shape", tag);
  }
  std::vector<char> seen(d.cells.size(), 0);
  for (const Entity* c : mesh->Entities(0)) {
    std::vector<int> v;
    for (const Entity* p : c->SubEntities(2)) v.push_back(at[mesh->Index(*p)]);
    int k = -1;
    for (std::size_t i = 0; i < d.cells.size(); ++i)
      if (d.cells[i].v == v) k = (int)i;
    MON_REQUIRE(k >= 0 && !seen[k], "cell", tag << " cell " << mesh->Index(*c));
    seen[k] = 1;
    groups(*c, gc[k], "cell " + std::to_string(k));
    const int n = (int)v.size();
    const MatrixXd x = gen::ref_points(r, n, 3);
    MON_CHECK((c->Geometry()->Global(x) - gen::shape_global(n, d.cell_order(k), d.cell_coords(k), x)).cwiseAbs().maxCoeff() <= 1e-13 * (d.P.cwiseAbs().maxCoeff() + d.diam()), "cell_shape", tag << " cell " << k);
  }
  // names
  for (int dim = 0; dim < 3; ++dim) {
    std::multiset<std::pair<unsigned, std::string>> want;
    for (auto& n : m.names)
      if (n.dim == dim) want.insert({(unsigned)n.tag, n.name});
    const auto got = rd.PhysicalEntities(2 - dim);
    MON_CHECK((std::multiset<std::pair<unsigned, std::string>>(got.begin(), got.end()) == want), "names", tag << " dimension " << dim << " " << got.size() << " of " << want.size());
  }
  std::set<std::string> words{"left", "absent", "x_1"};
  std::set<int> nrs{1, 5, 100};
  for (auto& n : m.names) words.insert(n.name), nrs.insert(n.tag);
  const unsigned any = static_cast<unsigned>(-1);
  for (auto& w : words)
    for (unsigned cd : {any, 0U, 1U, 2U}) {
      std::vector<Name> hit;
      for (auto& n : m.names)
        if (n.name == w && (cd == any || n.dim == 2 - (int)cd)) hit.push_back(n);
      if (hit.size() == 1) {
        no_throw("name_to_number", [&] {
          const auto k = cd == any ? rd.PhysicalEntityName2Nr(w) : rd.PhysicalEntityName2Nr(w, cd);
          MON_CHECK((int)k == hit[0].tag, "name_to_number", tag << " " << w << " codim " << (int)cd << " gives " << k << " instead of " << hit[0].tag);
          MON_CHECK(rd.PhysicalEntityNr2Name(k, 2 - hit[0].dim) == w, "number_to_name", tag << " " << w);
        });
        event(cd == any ? "unique_name" : "name_with_codim");
      } else {
        MON_CHECK(fails([&] { (void)rd.PhysicalEntityName2Nr(w, cd); }), "name_refused", tag << " " << w << " codim " << (int)cd << " matches " << hit.size());
        event(hit.empty() ? "absent_name" : "ambiguous_name");
      }
    }
  for (int w : nrs)
    for (unsigned cd : {any, 0U, 1U, 2U}) {
      std::vector<Name> hit;
      for (auto& n : m.names)
        if (n.tag == w && (cd == any || n.dim == 2 - (int)cd)) hit.push_back(n);
      if (hit.size() == 1) {
        no_throw("number_to_name", [&] {
          const auto k = cd == any ? rd.PhysicalEntityNr2Name(w) : rd.PhysicalEntityNr2Name(w, cd);
          MON_CHECK(k == hit[0].name, "number_to_name", tag << " " << w << " codim " << (int)cd);
        });
      } else {
        MON_CHECK(fails([&] { (void)rd.PhysicalEntityNr2Name(w, cd); }), "number_refused", tag << " " << w << " codim " << (int)cd << " matches " << hit.size());
        event(hit.empty() ? "absent_number" : "ambiguous_number");
      }
    }
  event("file_" + std::to_string(f.version) + (f.enc == text ? "_text" : f.enc == le ? "_le" : "_be"));
}

void faithful(Rng& r, u64) {
  const Model m = random_model(r, thorough() ? 40 : 16);
  Quiet q;
  for (int ver : {2, 4})
    for (Enc enc : {text, le, be}) {
      const File f = ver == 2 ? write_v2(r, m, enc) : write_v4(r, m, enc);
      const std::string why = Checker(f.s).run();
      MON_REQUIRE(why.empty(), "generator_well_formed", f.name() << ": " << why);
      std::unique_ptr<lf::io::GmshReader> rd;
      const std::string fn = store(f.s);
      const bool ok = no_throw("accepted", [&] {
        auto fac = std::make_unique<lf::mesh::hybrid2d::MeshFactory>(m.d.dw);
        if (r.coin(0.5))
          rd = std::make_unique<lf::io::GmshReader>(std::move(fac), fn);
        else
          rd = std::make_unique<lf::io::GmshReader>(std::move(fac), lf::io::ReadGmshFile(fn));
      });
      if (ok) compare(r, m, f, *rd);
      if (env().replay && std::getenv("MON_KEEP")) std::cerr << f.name() << "\n" << f.s << "\n" << q.sink.str() << "\n";
    }
  for (auto& e : m.elems) event("type_" + std::to_string(e.type));
  if (m.periodic) event("periodic");
  if (m.parts) event("partitioned");
  for (auto& c : m.comments)
    if (!c.empty()) event("comment_section");
  sig(m.d.hash());
  sample(gen::describe(m.d));
}

// outcome of reading: 0 refused, 1 mesh
int attempt(int dw, const std::string& s, std::string* why = nullptr) {
  const std::string fn = store(s);
  try {
    lf::io::GmshReader rd(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(dw), fn);
    // walk over whatever was produced
    const auto m = rd.mesh();
    double sum = 0;
    for (unsigned cd = 0; cd < 3; ++cd)
      for (const Entity* e : m->Entities(cd)) {
        sum += gen::corners_of(*e).sum() + rd.PhysicalEntityNr(*e).size();
        if (cd < 2) (void)e->SubEntities(1);
      }
    note("walk", sum > 1e300);
    return 1;
  } catch (const AssertFired& e) {
    if (why) *why = e.full;
  } catch (const std::bad_alloc& e) {
    event("out_of_memory");
  } catch (const std::exception& e) {
    if (why) *why = e.what();
  }
  return 0;
}
void judge(const Model& m, const File& f, const std::string& s, const std::string& what) {
  const std::string bad = Checker(s).run();
  const int got = attempt(m.d.dw, s);
  if (!bad.empty()) {
    MON_CHECK(got == 0, "damage_refused", f.name() << " " << gen::describe(m.d) << ": " << what << " (" << bad << ") was accepted");
    event("refused_" + std::to_string(f.version) + (f.enc == text ? "_text" : f.enc == le ? "_le" : "_be"));
  } else {
    event(got ? "still_well_formed" : "still_well_formed_refused");
  }
}
File random_file(Rng& r, Model& m) {
  m = random_model(r, 6);
  const int k = r.uni(0, 5);
  return k < 3 ? write_v2(r, m, (Enc)k) : write_v4(r, m, (Enc)(k - 3));
}
void truncated(Rng& r, u64) {
  Model m;
  const File f = random_file(r, m);
  Quiet q;
  MON_REQUIRE(attempt(m.d.dw, f.s) == 1, "intact_accepted", f.name());
  const bool all = thorough() && f.s.size() < 4000;
  std::set<std::size_t> cut;
  if (all)
    for (std::size_t k = 0; k < f.end_elements; ++k) cut.insert(k);
  for (int k = 0; k < 25; ++k) cut.insert(r.uni(0, (int)f.end_elements - 1));
  for (int k = 1; k <= 15; ++k) cut.insert(f.end_elements - k);
  for (auto& x : f.fields)
    if (x.kind == "marker" && x.pos < f.end_elements && r.coin(0.3)) cut.insert(x.pos), cut.insert(x.pos + 1);
  for (std::size_t k : cut) {
    MON_CHECK(attempt(m.d.dw, f.s.substr(0, k)) == 0, "truncation_refused", f.name() << " " << gen::describe(m.d) << " cut at " << k << " of " << f.end_elements);
    event("truncations");
  }
  sig(hcomb(m.d.hash(), f.version * 3 + f.enc));
  sample("cut " + f.name());
}
void put(std::string& s, const Field& x, Enc enc, long long v) {
  if (!x.bin) {
    s.replace(x.pos, x.len, std::to_string(v));
    return;
  }
  char b[8];
  std::memcpy(b, &v, 8);
  if (enc == be) std::reverse(b, b + x.len);
  s.replace(x.pos, x.len, b, x.len);
}
long long get(const std::string& s, const Field& x, Enc enc) {
  if (!x.bin) return std::atoll(s.c_str() + x.pos);
  char b[8] = {0};
  std::memcpy(b, s.data() + x.pos, x.len);
  if (enc == be) std::reverse(b, b + x.len);
  long long v;
  std::memcpy(&v, b, 8);
  return x.len == 4 ? (long long)(std::int32_t)v : v;
}
void damaged(Rng& r, u64) {
  Model m;
  const File f = random_file(r, m);
  Quiet q;
  MON_REQUIRE(attempt(m.d.dw, f.s) == 1, "intact_accepted", f.name());
  std::map<std::string, std::vector<Field>> by;
  for (auto& x : f.fields) by[x.kind].push_back(x);
  auto one = [&](const std::string& kind) -> const Field* {
    auto it = by.find(kind);
    return it == by.end() || it->second.empty() ? nullptr : &r.pick(it->second);
  };
  const std::vector<std::string> ints{"count", "count", "ntags", "noderef", "noderef", "nodetag", "type", "etag", "entref", "entdef", "dim", "phys", "nparts", "mintag", "maxtag", "namedim", "nametag", "x", "naffine"};
  for (int it = 0; it < (thorough() ? 60 : 25); ++it) {
    std::string s = f.s;
    const int k = r.uni(0, 9);
    if (k == 0) {  // marker
      const Field* x = one("marker");
      const std::size_t p = x->pos + r.uni(0, (int)x->len - 1);
      const char c = r.pick(std::vector<char>{'q', 'Z', '$', '7', ' ', '\n'});
      if (s[p] == c) continue;
      s[p] = c;
      judge(m, f, s, "marker " + f.s.substr(x->pos, x->len) + " changed to " + s.substr(x->pos, x->len));
      event("marker_damage");
    } else if (k <= 5) {  // integer
      const std::string kind = r.pick(ints);
      const Field* x = one(kind);
      if (!x) continue;
      const long long v = get(s, *x, f.enc);
      long long n = v;
      switch (r.uni(0, 6)) {
        case 0: n = v + 1; break;
        case 1: n = v - 1; break;
        case 2: n = 0; break;
        case 3: n = v + r.uni(2, 9); break;
        case 4: n = r.pick(std::vector<long long>{4294967295LL, 2147483647LL, -2147483648LL, -1LL, 65536LL, 1LL << 33, 1LL << 62, 1LL << 40}); break;
        case 5: n = v * 2; break;
        default: n = r.uni(-3, 40);
      }
      if (n == v) continue;
      put(s, *x, f.enc, n);
      judge(m, f, s, kind + " at " + std::to_string(x->pos) + " changed from " + std::to_string(v) + " to " + std::to_string(n));
      event("integer_damage");
      event("damaged_" + kind);
    } else if (k == 6) {  // node number defined twice or undefined
      const Field *x = one("nodetag"), *y = one("nodetag");
      if (!x || !y || x->pos == y->pos) continue;
      put(s, *x, f.enc, get(s, *y, f.enc));
      judge(m, f, s, "node number repeated");
      event("repeated_node");
    } else if (k == 7) {  // text inside a number
      const Field* x = one(r.pick(std::vector<std::string>{"coord", "noderef", "count", "nodetag", "ntags", "type", "phys", "elemtag", "header"}));
      if (!x || x->bin) continue;
      s.insert(x->pos + r.uni(0, (int)x->len), 1, r.pick(std::vector<char>{'#', 'z', '"', '$', '/'}));
      judge(m, f, s, "character inserted at " + std::to_string(x->pos));
      event("character_damage");
    } else if (k == 8) {  // a field removed or doubled
      const Field& x = r.pick(f.fields);
      if (x.kind == "marker") continue;
      if (r.coin())
        s.erase(x.pos, x.len + (x.bin ? 0 : 1));
      else
        s.insert(x.pos, f.s.substr(x.pos, x.len) + (x.bin ? "" : " "));
      judge(m, f, s, x.kind + " at " + std::to_string(x.pos) + " removed or doubled");
      event("field_removed_or_doubled");
    } else {  // a span removed
      const std::size_t p = r.uni(0, (int)f.end_elements - 2);
      s.erase(p, r.uni(1, 40));
      judge(m, f, s, "span removed at " + std::to_string(p));
      event("span_removed");
    }
  }
  sig(hcomb(m.d.hash(), f.version * 3 + f.enc));
  sample("damage " + f.name());
}
void noise(Rng& r, u64) {
  Model m;
  const File f = random_file(r, m);
  Quiet q;
  for (int it = 0; it < (thorough() ? 60 : 25); ++it) {
    std::string s = f.s;
    const int k = r.coin(0.6) ? 1 : r.uni(2, 5);
    for (int i = 0; i < k; ++i) {
      const int p = r.uni(0, (int)s.size() - 1);
      if (r.coin(0.5))
        s[p] = (char)r.uni(0, 255);
      else
        s[p] = (char)(s[p] ^ (1 << r.uni(0, 7)));
    }
    judge(m, f, s, "bytes changed");
    event("noise");
  }
  // a file of arbitrary bytes
  std::string s = "$MeshFormat\n" + std::string(r.coin() ? "2.2" : "4.1") + (r.coin() ? " 1 8\n\1\0\0\0\n$EndMeshFormat\n" : " 0 8\n$EndMeshFormat\n");
  for (int i = r.uni(0, 60); i > 0; --i) s += r.coin(0.3) ? f.s.substr(r.uni(0, (int)f.s.size() - 1), r.uni(1, 20)) : std::string(1, (char)r.uni(0, 255));
  judge(m, f, s, "arbitrary bytes");
  sig(hcomb(m.d.hash(), f.version * 3 + f.enc));
}
void missing(Rng& r, u64) {
  Quiet q;
  MON_CHECK(fails([&] { lf::io::GmshReader rd(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2), env().scratch + "/does_not_exist.msh"); }), "missing_refused", "");
  for (const char* s : {"", "\n", "$MeshFormat", "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n", "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n", "$MeshFormat\n3.0 0 8\n$EndMeshFormat\n"}) MON_CHECK(attempt(2, s) == 0, "empty_refused", s);
  sig(r.next());
}
}  // namespace

void mon::register_all() {
  stream("I01", "faithful", 300, 12000, faithful);
  expect("I01", {"accepted", "several_groups", "no_group", "one_group", "unique_name", "ambiguous_name", "ambiguous_number", "absent_name", "name_with_codim", "file_2_text", "file_2_le", "file_2_be", "file_4_text", "file_4_le", "file_4_be", "periodic", "partitioned", "comment_section", "type_15", "type_1", "type_8", "type_2", "type_9", "type_3", "type_16", "type_10"});
  stream("I02", "truncated", 120, 3000, truncated);
  stream("I02", "damaged", 200, 8000, damaged);
  stream("I02", "noise", 120, 5000, noise);
  stream("I02", "missing", 2, 2, missing);
  expect("I02", {"truncations", "marker_damage", "integer_damage", "repeated_node", "character_damage", "field_removed_or_doubled", "span_removed", "noise", "refused_2_text", "refused_2_le", "refused_2_be", "refused_4_text", "refused_4_le", "refused_4_be", "damage_refused"});
}
