// Generator, writer (2.2 / 4.1; text, little and big endian binary) and
// independent well-formedness checker of Gmsh files.
#pragma once
#include <cstring>

#include "audit.h"

namespace gmshf {
using gen::Desc;
using gen::Edge2;
using gen::ekey;
using gen::MatrixXd;
using gen::VectorXd;
using mon::Rng;
using Eigen::Vector3d;

struct Node {
  unsigned tag;
  Vector3d x;
  int main = -1;  // index of the point of the description
  int edim = 2, etag = 1;
};
struct Elem {
  unsigned num;
  int type, etag, dim;
  std::vector<unsigned> nodes;
  std::vector<int> parts;
  int cell = -1, point = -1;
  Edge2 edge{-1, -1};
};
struct Name {
  int dim, tag;
  std::string name;
};
struct Model {
  Desc d;
  std::vector<Node> nodes;
  std::vector<Elem> elems;
  std::map<std::pair<int, int>, std::vector<int>> ent;  // (dim, tag) -> groups
  std::vector<Name> names;
  bool has_names = false, periodic = false, parts = false, ghosts = false;
  std::vector<std::string> comments;  // one per slot, empty: none
};

inline int nn_of(int type) {
  switch (type) {
    case 15: return 1;
    case 1: return 2;
    case 8: case 2: return 3;
    case 9: return 6;
    case 3: return 4;
    case 16: return 8;
    case 10: return 9;
    default: return -1;
  }
}
inline int dim_of(int type) {
  switch (type) {
    case 15: return 0;
    case 1: case 8: return 1;
    case 2: case 9: case 3: case 16: case 10: return 2;
    default: return -1;
  }
}

inline Model random_model(Rng& r, int max_cells) {
  gen::Opts o;
  o.max_cells = max_cells;
  o.omitted = false;
  o.sup_edges = false;
  o.curved = r.coin();
  Model m;
  m.d = gen::random_desc(r, o);
  Desc& d = m.d;
  const bool second = d.curved() || r.coin(0.3);
  for (auto& c : d.cells) c.geo = second ? gen::kO2 : gen::kO1;
  const bool sparse = r.coin();
  unsigned t = sparse ? r.uni(1, 500) : 1;
  auto next_tag = [&]() {
    const unsigned x = t;
    t += sparse ? r.uni(1, 30) : 1;
    return x;
  };
  auto x3 = [&](const VectorXd& x) {
    Vector3d y = Vector3d::Zero();
    y.head(d.dw) = x;
    return y;
  };
  std::vector<unsigned> tags;
  const auto ec = d.edge_cells();
  std::map<Edge2, unsigned> mid;
  std::vector<unsigned> centre(d.cells.size(), 0), loose;
  const int nq9 = r.uni(0, 2);
  std::vector<bool> q9;
  for (auto& c : d.cells) q9.push_back(second && c.v.size() == 4 && (nq9 == 2 || (nq9 == 1 && r.coin())));
  for (int i = 0; i < d.np(); ++i) m.nodes.push_back({0, x3(d.P.col(i)), i});
  std::vector<std::size_t> mids;
  if (second)
    for (auto& [e, cs] : ec) m.nodes.push_back({0, x3(d.midpoint(e.first, e.second)), -1, -e.first - 1, e.second});
  for (std::size_t c = 0; c < d.cells.size(); ++c)
    if (q9[c]) {
      VectorXd s = VectorXd::Zero(d.dw);
      for (int v : d.cells[c].v) s += 0.25 * d.P.col(v);
      m.nodes.push_back({0, x3(s), -1, -1000000 - (int)c, 0});
    }
  const int nl = r.coin(0.5) ? r.uni(1, 4) : 0;
  for (int i = 0; i < nl; ++i) m.nodes.push_back({0, x3(d.P.col(0) + VectorXd::Constant(d.dw, d.diam() * r.real(1, 2))), -1, -900000, 0});
  // tags in random order of the nodes
  for (int k : r.perm((int)m.nodes.size())) m.nodes[k].tag = next_tag();
  tags.resize(d.np());
  for (auto& n : m.nodes) {
    if (n.main >= 0)
      tags[n.main] = n.tag;
    else if (n.edim > -900000)
      mid[{-n.edim - 1, n.etag}] = n.tag;
    else if (n.edim == -900000)
      loose.push_back(n.tag);
    else
      centre[-n.edim - 1000000] = n.tag;
  }
  if (r.coin()) r.shuffle(m.nodes);
  // entities and groups
  const std::vector<int> pool{1, 2, 3, 7, 12, 100, 4711};
  auto groups = [&]() {
    std::vector<int> g;
    const int k = r.coin(0.4) ? 1 : r.uni(0, 4);
    for (int i = 0; i < k; ++i) g.push_back(r.pick(pool));
    r.shuffle(g);
    std::set<int> seen;
    std::vector<int> u;
    for (int x : g)
      if (seen.insert(x).second) u.push_back(x);
    return u;
  };
  std::vector<std::vector<int>> ets(3);
  for (int dim = 0; dim < 3; ++dim) {
    int tg = 0;
    const int k = dim == 0 ? r.uni(0, 8) : r.uni(1, 5);
    for (int i = 0; i < k; ++i) {
      tg += r.coin(0.7) ? 1 : r.uni(1, 20);
      ets[dim].push_back(tg);
      m.ent[{dim, tg}] = groups();
    }
  }
  // elements
  const int np = r.uni(0, 4);
  m.parts = r.coin(0.3);
  auto parts = [&]() {
    std::vector<int> p;
    if (m.parts)
      for (int i = r.uni(1, 3); i > 0; --i) p.push_back(r.uni(1, 4));
    return p;
  };
  (void)np;
  std::vector<Elem> el0, el1, el2;
  std::set<unsigned> used;
  for (int et : ets[0]) {
    Elem e{0, 15, et, 0, {}, parts()};
    const bool aux = r.coin(0.25) && (!loose.empty() || !mid.empty());
    if (aux) {
      e.nodes = {!loose.empty() && (mid.empty() || r.coin()) ? r.pick(loose) : std::next(mid.begin(), r.uni(0, (int)mid.size() - 1))->second};
    } else {
      e.point = r.uni(0, d.np() - 1);
      e.nodes = {tags[e.point]};
    }
    if (!used.insert(e.nodes[0]).second) continue;
    el0.push_back(e);
  }
  const double pe = r.coin(0.2) ? 1.0 : r.coin(0.2) ? 0.0 : r.real();
  for (auto& [e, cs] : ec)
    if (r.coin(pe)) {
      Elem x{0, second ? 8 : 1, r.pick(ets[1]), 1, {}, parts()};
      const bool f = r.coin();
      x.nodes = {tags[f ? e.first : e.second], tags[f ? e.second : e.first]};
      if (second) x.nodes.push_back(mid[e]);
      x.edge = e;
      el1.push_back(x);
    }
  for (std::size_t c = 0; c < d.cells.size(); ++c) {
    const auto& v = d.cells[c].v;
    Elem x{0, v.size() == 3 ? (second ? 9 : 2) : (second ? (q9[c] ? 10 : 16) : 3), r.pick(ets[2]), 2, {}, parts()};
    for (int i : v) x.nodes.push_back(tags[i]);
    if (second)
      for (std::size_t i = 0; i < v.size(); ++i) x.nodes.push_back(mid[ekey(v[i], v[(i + 1) % v.size()])]);
    if (q9[c]) x.nodes.push_back(centre[c]);
    x.cell = (int)c;
    el2.push_back(x);
  }
  for (auto* s : {&el0, &el1, &el2}) {
    r.shuffle(*s);
    m.elems.insert(m.elems.end(), s->begin(), s->end());
  }
  if (r.coin(0.3)) r.shuffle(m.elems);
  unsigned num = sparse ? r.uni(1, 900) : 1;
  for (auto& e : m.elems) e.num = num, num += sparse ? r.uni(1, 9) : 1;
  for (auto& n : m.nodes) {
    n.edim = r.uni(1, 2);
    n.etag = r.pick(ets[n.edim]);
  }
  // names
  m.has_names = r.coin(0.8);
  if (m.has_names) {
    const std::vector<std::string> words{"left", "right side", "Omega", "a", "x_1", "outer  wall", "Gamma D", "0", "#3"};
    for (int dim = 0; dim < 3; ++dim) {
      std::set<std::string> taken;
      for (int tg : pool)
        if (r.coin(0.45)) {
          const std::string w = r.pick(words);
          if (taken.insert(w).second) m.names.push_back({dim, tg, w});
        }
    }
    r.shuffle(m.names);
  }
  m.periodic = r.coin(0.3);
  m.ghosts = r.coin(0.2);
  for (int i = 0; i < 6; ++i) {
    std::string c;
    if (r.coin(0.25)) {
      const std::string nm = r.pick(std::vector<std::string>{"Comments", "Foo", "NodeData", "InterpolationScheme"});
      c = "$" + nm + "\n" + r.pick(std::vector<std::string>{"", "hello world\n", "1\n\"a\"\n 2 3 4\nNodes 12\n", "End of it\n\n"}) + "$End" + nm + "\n";
    }
    m.comments.push_back(c);
  }
  return m;
}

enum Enc { text, le, be };
struct Field {
  std::size_t pos, len;
  std::string kind;
  bool bin;
};
struct File {
  std::string s;
  int version;  // 2 or 4
  Enc enc;
  std::size_t end_elements = 0;  // position behind "$EndElements"
  std::vector<Field> fields;
  std::string name() const { return std::string(version == 2 ? "2.2 " : "4.1 ") + (enc == text ? "text" : enc == le ? "little endian" : "big endian"); }
};

struct Writer {
  File f;
  void raw(const std::string& x) { f.s += x; }
  void marker(const std::string& x, const std::string& tail = "\n") {
    f.fields.push_back({f.s.size(), x.size(), "marker", false});
    f.s += x + tail;
  }
  void tok(const std::string& x, const std::string& kind, const std::string& tail) {
    f.fields.push_back({f.s.size(), x.size(), kind, false});
    f.s += x + tail;
  }
  template <class T>
  void bytes(T v, const std::string& kind) {
    char b[sizeof(T)];
    std::memcpy(b, &v, sizeof(T));
    if (f.enc == be) std::reverse(b, b + sizeof(T));
    f.fields.push_back({f.s.size(), sizeof(T), kind, true});
    f.s.append(b, sizeof(T));
  }
  void i32(int v, const std::string& kind, const std::string& tail) {
    if (f.enc == text)
      tok(std::to_string(v), kind, tail);
    else
      bytes<std::int32_t>(v, kind);
  }
  void u64(std::uint64_t v, const std::string& kind, const std::string& tail) {
    if (f.enc == text)
      tok(std::to_string(v), kind, tail);
    else
      bytes<std::uint64_t>(v, kind);
  }
  void dbl(double v, const std::string& tail) {
    if (f.enc == text) {
      char b[64];
      std::snprintf(b, sizeof b, "%.17g", v);
      tok(b, "coord", tail);
    } else {
      bytes<double>(v, "coord");
    }
  }
  void header(const char* v) {
    marker("$MeshFormat");
    tok(v, "header", " ");
    tok(f.enc == text ? "0" : "1", "header", " ");
    tok("8", "header", "\n");
    if (f.enc != text) {
      bytes<std::int32_t>(1, "header");
      raw("\n");
    }
    marker("$EndMeshFormat");
  }
  void names(const Model& m) {
    if (!m.has_names) return;
    marker("$PhysicalNames");
    tok(std::to_string(m.names.size()), "count", "\n");
    for (auto& n : m.names) {
      tok(std::to_string(n.dim), "namedim", " ");
      tok(std::to_string(n.tag), "nametag", " ");
      raw("\"" + n.name + "\"\n");
    }
    marker("$EndPhysicalNames");
  }
};

inline File write_v2(Rng& r, const Model& m, Enc enc) {
  Writer w;
  w.f.version = 2;
  w.f.enc = enc;
  w.header("2.2");
  w.raw(m.comments[0]);
  w.names(m);
  w.raw(m.comments[1]);
  w.marker("$Nodes");
  w.tok(std::to_string(m.nodes.size()), "count", "\n");
  for (auto& n : m.nodes) {
    w.i32((int)n.tag, "nodetag", " ");
    w.dbl(n.x(0), " ");
    w.dbl(n.x(1), " ");
    w.dbl(n.x(2), "\n");
  }
  if (enc != text) w.raw("\n");
  w.marker("$EndNodes");
  w.raw(m.comments[2]);
  struct Row {
    const Elem* e;
    int phys;
    unsigned num;
  };
  std::vector<Row> rows;
  unsigned extra = 100000;
  for (auto& e : m.elems) {
    const auto& g = m.ent.at({e.dim, e.etag});
    if (g.empty())
      rows.push_back({&e, 0, e.num});
    else
      for (std::size_t k = 0; k < g.size(); ++k) rows.push_back({&e, g[k], k == 0 ? e.num : extra++});
  }
  auto ntags = [](const Elem& e) { return e.parts.empty() ? 2 : 3 + (int)e.parts.size(); };
  w.marker("$Elements");
  w.tok(std::to_string(rows.size()), "count", "\n");
  for (std::size_t i = 0; i < rows.size();) {
    std::size_t j = i + 1;
    if (enc != text) {
      while (j < rows.size() && rows[j].e->type == rows[i].e->type && ntags(*rows[j].e) == ntags(*rows[i].e) && r.coin(0.8)) ++j;
      w.i32(rows[i].e->type, "type", "");
      w.i32((int)(j - i), "count", "");
      w.i32(ntags(*rows[i].e), "ntags", "");
    }
    for (; i < j; ++i) {
      const Elem& e = *rows[i].e;
      w.i32((int)rows[i].num, "elemtag", " ");
      if (enc == text) {
        w.i32(e.type, "type", " ");
        w.i32(ntags(e), "ntags", " ");
      }
      w.i32(rows[i].phys, "phys", " ");
      w.i32(e.etag, "etag", " ");
      if (!e.parts.empty()) {
        w.i32((int)e.parts.size(), "nparts", " ");
        for (int p : e.parts) w.i32(p, "part", " ");
      }
      for (std::size_t k = 0; k < e.nodes.size(); ++k) w.i32((int)e.nodes[k], "noderef", k + 1 < e.nodes.size() ? " " : "\n");
    }
  }
  if (enc != text) w.raw("\n");
  w.marker("$EndElements", "");
  w.f.end_elements = w.f.s.size();
  w.raw("\n");
  w.raw(m.comments[3]);
  if (m.periodic) {
    w.marker("$Periodic");
    w.tok("2", "count", "\n");
    for (int k = 0; k < 2; ++k) {
      w.tok("1", "x", " "), w.tok("1", "x", " "), w.tok("2", "x", "\n");
      w.tok(std::to_string(k + 1), "count", "\n");
      for (int l = 0; l <= k; ++l) w.tok(std::to_string(m.nodes[l].tag), "x", " "), w.tok(std::to_string(m.nodes[0].tag), "x", "\n");
    }
    w.marker("$EndPeriodic");
  }
  w.raw(m.comments[4]);
  return w.f;
}

inline File write_v4(Rng& r, const Model& m, Enc enc) {
  Writer w;
  w.f.version = 4;
  w.f.enc = enc;
  const bool bin = enc != text;
  w.header("4.1");
  w.raw(m.comments[0]);
  w.names(m);
  w.raw(m.comments[1]);
  w.marker("$Entities");
  std::size_t cnt[4] = {0, 0, 0, 0};
  for (auto& [k, g] : m.ent) ++cnt[k.first];
  const int vol = r.coin(0.2);
  cnt[3] = vol;
  for (int k = 0; k < 4; ++k) w.u64(cnt[k], "count", k < 3 ? " " : "\n");
  const int shift = m.parts ? 40 : 0;  // tags of partitioned entities
  auto entity = [&](int dim, int tag, const std::vector<int>& g, bool partitioned, bool give) {
    w.i32(tag, "entdef", " ");
    if (partitioned) {
      w.i32(dim, "x", " ");
      w.i32(tag, "x", " ");
      w.u64(2, "count", " ");
      w.i32(1, "x", " ");
      w.i32(2, "x", " ");
    }
    for (int k = 0; k < (dim == 0 ? 3 : 6); ++k) w.dbl(k < 3 ? 0.0 : 1.5, " ");
    const std::size_t n = give ? g.size() : 0;
    w.u64(n, "count", dim == 0 && n == 0 ? "\n" : " ");
    for (std::size_t k = 0; k < n; ++k) w.i32(g[k], "phys", dim == 0 && k + 1 == n ? "\n" : " ");
    if (dim == 0) return;
    const int nb = dim == 2 ? r.uni(0, 3) : 2;
    w.u64(nb, "count", nb ? " " : "\n");
    for (int k = 0; k < nb; ++k) w.i32(r.coin() ? k + 1 : -k - 1, "x", k + 1 < nb ? " " : "\n");
  };
  for (auto& [k, g] : m.ent) entity(k.first, k.second, g, false, !m.parts || r.coin());
  if (vol) entity(3, 1, {}, false, true);
  if (bin) w.raw("\n");
  w.marker("$EndEntities");
  w.raw(m.comments[2]);
  if (m.parts) {
    w.marker("$PartitionedEntities");
    w.u64(4, "x", "\n");
    const int ng = r.uni(0, 2);
    w.u64(ng, "count", "\n");
    for (int k = 0; k < ng; ++k) w.i32(90 + k, "x", " "), w.i32(k + 1, "x", "\n");
    for (int k = 0; k < 4; ++k) w.u64(k < 3 ? cnt[k] : 0, "count", k < 3 ? " " : "\n");
    for (auto& [k, g] : m.ent) {
      entity(k.first, k.second + shift, g, true, true);
    }
    if (bin) w.raw("\n");
    w.marker("$EndPartitionedEntities");
    w.raw(m.comments[5]);
  }
  // nodes by entity
  std::map<std::pair<int, int>, std::vector<const Node*>> nb;
  unsigned lo = ~0U, hi = 0;
  for (auto& n : m.nodes) {
    nb[{n.edim, n.etag}].push_back(&n);
    lo = std::min(lo, n.tag), hi = std::max(hi, n.tag);
  }
  std::vector<std::pair<std::pair<int, int>, std::vector<const Node*>>> blocks(nb.begin(), nb.end());
  if (r.coin(0.3)) blocks.push_back({{1, m.nodes[0].etag}, {}});
  r.shuffle(blocks);
  w.marker("$Nodes");
  w.u64(blocks.size(), "count", " ");
  w.u64(m.nodes.size(), "count", " ");
  w.u64(lo, "mintag", " ");
  w.u64(hi, "maxtag", "\n");
  for (auto& [k, b] : blocks) {
    w.i32(k.first, "x", " ");
    w.i32(k.second + shift, "x", " ");
    w.i32(0, "x", " ");
    w.u64(b.size(), "count", "\n");
    for (auto* n : b) w.u64(n->tag, "nodetag", "\n");
    for (auto* n : b) w.dbl(n->x(0), " "), w.dbl(n->x(1), " "), w.dbl(n->x(2), "\n");
  }
  if (bin) w.raw("\n");
  w.marker("$EndNodes");
  w.raw(m.comments[3]);
  std::vector<std::pair<std::array<int, 3>, std::vector<const Elem*>>> eb;
  {
    std::map<std::array<int, 3>, std::size_t> at;
    for (auto& e : m.elems) {
      const std::array<int, 3> k{e.dim, e.etag, e.type};
      auto it = at.find(k);
      if (it == at.end() || r.coin(0.03)) {
        at[k] = eb.size();
        eb.push_back({k, {}});
      }
      eb[at[k]].second.push_back(&e);
    }
  }
  w.marker("$Elements");
  w.u64(eb.size(), "count", " ");
  w.u64(m.elems.size(), "count", " ");
  w.u64(m.elems.front().num, "x", " ");
  w.u64(m.elems.back().num, "x", "\n");
  for (auto& [k, b] : eb) {
    w.i32(k[0], "dim", " ");
    w.i32(k[1] + shift, "entref", " ");
    w.i32(k[2], "type", " ");
    w.u64(b.size(), "count", "\n");
    for (auto* e : b) {
      w.u64(e->num, "elemtag", " ");
      for (std::size_t q = 0; q < e->nodes.size(); ++q) w.u64(e->nodes[q], "noderef", q + 1 < e->nodes.size() ? " " : "\n");
    }
  }
  if (bin) w.raw("\n");
  w.marker("$EndElements", "");
  w.f.end_elements = w.f.s.size();
  w.raw("\n");
  w.raw(m.comments[4]);
  if (m.periodic) {
    w.marker("$Periodic");
    w.u64(2, "count", "\n");
    for (int k = 0; k < 2; ++k) {
      w.i32(1, "x", " "), w.i32(1, "x", " "), w.i32(2, "x", "\n");
      if (k == 0) {
        w.u64(0, "naffine", "\n");
      } else {
        w.u64(16, "naffine", " ");
        for (int q = 0; q < 16; ++q) w.dbl(q % 5 == 0 ? 1.0 : 0.25 * q, q < 15 ? " " : "\n");
      }
      w.u64(k + 1, "count", "\n");
      for (int l = 0; l <= k; ++l) w.u64(m.nodes[l].tag, "x", " "), w.u64(m.nodes[0].tag, "x", "\n");
    }
    if (bin) w.raw("\n");
    w.marker("$EndPeriodic");
  }
  if (m.ghosts) {
    w.marker("$GhostElements");
    w.u64(1, "count", "\n");
    w.u64(m.elems[0].num, "x", " ");
    w.i32(1, "x", " ");
    w.u64(2, "count", " ");
    w.i32(2, "x", " "), w.i32(3, "x", "\n");
    if (bin) w.raw("\n");
    w.marker("$EndGhostElements");
  }
  return w.f;
}

// ---- well-formedness ---------------------------------------------------------
// Deliberately lenient: complains only about definite defects.
struct Checker {
  const std::string& s;
  std::size_t p = 0;
  Enc enc = text;
  struct Bad {
    std::string why;
  };
  explicit Checker(const std::string& x) : s(x) {}
  [[noreturn]] void bad(const std::string& w) { throw Bad{w + " at " + std::to_string(p)}; }
  static bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
  void ws() {
    while (p < s.size() && space(s[p])) ++p;
  }
  bool at(const std::string& x) const { return s.compare(p, x.size(), x) == 0; }
  void lit(const std::string& x) {
    ws();
    if (!at(x)) bad("expected " + x);
    p += x.size();
  }
  long long integer(bool sign) {
    ws();
    std::size_t q = p;
    bool neg = false;
    if (sign && q < s.size() && (s[q] == '-' || s[q] == '+')) neg = s[q++] == '-';
    const std::size_t q0 = q;
    __int128 v = 0;
    while (q < s.size() && s[q] >= '0' && s[q] <= '9') {
      v = v * 10 + (s[q++] - '0');
      if (v > (__int128)18446744073709551615ULL) bad("integer too large");
    }
    if (q == q0) bad("integer expected");
    p = q;
    return (long long)(neg ? -v : v);
  }
  template <class T>
  T bytes() {
    if (s.size() - p < sizeof(T)) bad("file ends");
    char b[sizeof(T)];
    std::memcpy(b, s.data() + p, sizeof(T));
    if (enc == be) std::reverse(b, b + sizeof(T));
    p += sizeof(T);
    T v;
    std::memcpy(&v, b, sizeof(T));
    return v;
  }
  long long i32() { return enc == text ? integer(true) : bytes<std::int32_t>(); }
  unsigned long long size() { return enc == text ? (unsigned long long)integer(false) : bytes<std::uint64_t>(); }
  void dbl() {
    if (enc != text) {
      bytes<double>();
      return;
    }
    ws();
    const char* b = s.c_str() + p;
    char* e = nullptr;
    (void)std::strtod(b, &e);
    if (e == b) bad("number expected");
    p += e - b;
  }
  void comments(std::initializer_list<const char*> keep) {
    for (;;) {
      const std::size_t p0 = p;
      ws();
      if (p >= s.size() || s[p] != '$') {
        if (enc != text) p = p0;
        return;
      }
      for (auto* k : keep)
        if (at(k)) return;
      const std::size_t e = s.find_first_of("\r\n", p);
      if (e == std::string::npos) bad("comment without end");
      const std::string nm = s.substr(p + 1, e - p - 1);
      const std::size_t q = s.find("$End" + nm, e);
      if (q == std::string::npos) bad("section without end");
      p = q + 4 + nm.size();
    }
  }
  void count_guard(unsigned long long n) {
    if (n > s.size()) bad("count exceeds file");
  }
  void names() {
    ws();
    if (!at("$PhysicalNames")) return;
    lit("$PhysicalNames");
    const auto n = integer(true);
    for (long long i = 0; i < n; ++i) {
      integer(true);
      integer(true);
      lit("\"");
      const auto q = s.find('"', p);
      if (q == std::string::npos || q == p) bad("name");
      p = q + 1;
    }
    lit("$EndPhysicalNames");
  }
  void open(const std::string& x) {
    lit(x);
    if (enc != text) {
      if (p < s.size() && s[p] == '\r') ++p;
      if (p >= s.size() || s[p] != '\n') bad("line end");
      ++p;
    }
  }
  std::set<unsigned long long> tags;
  std::map<int, std::set<long long>> ents;

  void element(int type, bool v2) {
    for (int k = 0; k < nn_of(type); ++k) {
      const unsigned long long t = v2 ? (enc == text ? (unsigned long long)integer(false) : bytes<std::uint32_t>()) : size();
      if (!tags.count(t)) bad("undefined node " + std::to_string(t));
    }
  }
  void v2() {
    const std::initializer_list<const char*> keep{"$PhysicalNames", "$Nodes", "$Elements", "$Periodic"};
    comments(keep);
    names();
    comments(keep);
    lit("$Nodes");
    const auto n = integer(false);
    if (enc != text) {
      if (p >= s.size() || s[p] != '\n') bad("line end");
      ++p;
    }
    for (long long i = 0; i < n; ++i) {
      const unsigned long long t = enc == text ? (unsigned long long)integer(false) : bytes<std::uint32_t>();
      if (!tags.insert(t).second) bad("node defined twice");
      dbl(), dbl(), dbl();
    }
    lit("$EndNodes");
    comments(keep);
    lit("$Elements");
    const auto ne = integer(false);
    if (enc != text) {
      if (p >= s.size() || s[p] != '\n') bad("line end");
      ++p;
    }
    bool cell = false;
    for (long long i = 0; i < ne;) {
      long long type = 0, cnt = 1, nt = 0;
      if (enc != text) {
        type = i32(), cnt = i32(), nt = i32();
        if (cnt < 0 || i + cnt > ne) bad("too many elements");
      }
      for (long long k = 0; k < cnt; ++k) {
        i32();
        if (enc == text) type = i32(), nt = i32();
        if (nn_of((int)type) < 0 || type != (int)type) bad("type");
        if (nt < 2) bad("tags");
        if (nt > (long long)s.size()) bad("tags");
        for (long long q = 0; q < nt; ++q) i32();
        element((int)type, true);
        cell = cell || dim_of((int)type) == 2;
        if (enc == text) {
          while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) ++p;
          if (p >= s.size() || (s[p] != '\n' && s[p] != '\r')) bad("line end");
        }
      }
      i += cnt;
    }
    if (!cell) bad("no cells");
    lit("$EndElements");
    comments(keep);
    ws();
    if (at("$Periodic")) {
      lit("$Periodic");
      const auto k = integer(false);
      for (long long i = 0; i < k; ++i) {
        integer(true), integer(true), integer(true);
        const auto q = integer(false);
        for (long long j = 0; j < q; ++j) integer(false), integer(false);
      }
      lit("$EndPeriodic");
      comments(keep);
    }
  }
  void int_vec() {
    const auto n = size();
    count_guard(n);
    for (unsigned long long i = 0; i < n; ++i) i32();
  }
  void v4() {
    const std::initializer_list<const char*> keep{"$PhysicalNames", "$Entities", "$PartitionedEntities", "$Nodes", "$Elements", "$Periodic", "$GhostElements"};
    comments(keep);
    names();
    comments(keep);
    open("$Entities");
    auto entities = [&](bool part) {
      unsigned long long c[4];
      for (auto& x : c) x = size(), count_guard(x);
      for (int dim = 0; dim < 4; ++dim)
        for (unsigned long long i = 0; i < c[dim]; ++i) {
          ents[dim].insert(i32());
          if (part) {
            i32(), i32();
            int_vec();
          }
          for (int k = 0; k < (dim == 0 ? 3 : 6); ++k) dbl();
          int_vec();
          if (dim > 0) int_vec();
        }
    };
    entities(false);
    lit("$EndEntities");
    comments(keep);
    ws();
    if (at("$PartitionedEntities")) {
      open("$PartitionedEntities");
      const auto np = size();
      if (np > 0) ents.clear();
      const auto ng = size();
      count_guard(ng);
      for (unsigned long long i = 0; i < ng; ++i) i32(), i32();
      if (np > 0) {
        entities(true);
      } else {
        auto keep_ents = ents;
        entities(true);
        ents = keep_ents;
      }
      lit("$EndPartitionedEntities");
      comments(keep);
    }
    open("$Nodes");
    {
      const auto nb = size(), n = size(), lo = size(), hi = size();
      count_guard(nb);
      unsigned long long seen = 0;
      for (unsigned long long b = 0; b < nb; ++b) {
        i32(), i32(), i32();
        const auto k = size();
        count_guard(k);
        for (unsigned long long i = 0; i < k; ++i) {
          const auto t = size();
          if (t < lo || t > hi) bad("node tag out of range");
          if (!tags.insert(t).second) bad("node defined twice");
        }
        for (unsigned long long i = 0; i < 3 * k; ++i) dbl();
        seen += k;
      }
      if (seen != n) bad("number of nodes");
    }
    lit("$EndNodes");
    comments(keep);
    open("$Elements");
    {
      const auto nb = size(), n = size();
      size(), size();
      count_guard(nb);
      unsigned long long seen = 0;
      bool cell = false;
      for (unsigned long long b = 0; b < nb; ++b) {
        const auto dim = i32(), et = i32(), type = i32();
        const auto k = size();
        count_guard(k);
        if (nn_of((int)type) < 0 || dim_of((int)type) != dim) bad("type");
        if (!ents[(int)dim].count(et)) bad("undefined entity");
        for (unsigned long long i = 0; i < k; ++i) {
          size();
          element((int)type, false);
        }
        seen += k;
        cell = cell || (dim == 2 && k > 0);
      }
      if (seen != n) bad("number of elements");
      if (!cell) bad("no cells");
    }
    lit("$EndElements");
    comments(keep);
    ws();
    if (at("$Periodic")) {
      open("$Periodic");
      const auto n = size();
      count_guard(n);
      for (unsigned long long i = 0; i < n; ++i) {
        i32(), i32(), i32();
        const auto a = size();
        if (a != 0 && a != 16) bad("affine");
        for (unsigned long long k = 0; k < a; ++k) dbl();
        const auto q = size();
        count_guard(q);
        for (unsigned long long k = 0; k < q; ++k) size(), size();
      }
      lit("$EndPeriodic");
      comments(keep);
      ws();
    }
    if (at("$GhostElements")) {
      open("$GhostElements");
      const auto n = size();
      count_guard(n);
      for (unsigned long long i = 0; i < n; ++i) {
        size(), i32();
        int_vec();
      }
      lit("$EndGhostElements");
      comments(keep);
    }
  }
  // empty: well-formed
  std::string run() {
    try {
      lit("$MeshFormat");
      ws();
      const std::size_t q = s.find_first_of(" \t\r\n", p);
      if (q == std::string::npos) bad("header");
      const std::string ver = s.substr(p, q - p);
      p = q;
      ws();
      if (p >= s.size() || (s[p] != '0' && s[p] != '1')) bad("header");
      const bool bin = s[p++] == '1';
      if (integer(true) != 8) bad("header");
      if (bin) {
        ws();
        enc = le;
        enc = bytes<std::int32_t>() == 1 ? le : be;
      }
      lit("$EndMeshFormat");
      if (ver == "2.2")
        v2();
      else if (ver == "4.1")
        v4();
      else
        bad("version");
      ws();
      if (p != s.size()) bad("trailing text");
      return "";
    } catch (const Bad& b) {
      return b.why.empty() ? "bad" : b.why;
    }
  }
};
}  // namespace gmshf
