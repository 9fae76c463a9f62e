// I05: the in-memory representation of a Gmsh file holds every record of the file.
#include <lf/io/gmsh_file_v2.h>
#include <lf/io/gmsh_file_v4.h>
#include <lf/io/io.h>

#include <fstream>
#include <iostream>
#include <optional>

#include "gmshfile.h"

using namespace mon;
using namespace gmshf;
using V2 = lf::io::GMshFileV2;
using V4 = lf::io::GMshFileV4;

namespace {
struct Quiet {
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
};
// element types of the Gmsh manual: number, nodes, dimension
struct Type {
  int id, nodes, dim;
};
const std::vector<Type> kTypes{{1, 2, 1},   {2, 3, 2},   {3, 4, 2},   {4, 4, 3},   {5, 8, 3},   {6, 6, 3},   {7, 5, 3},   {8, 3, 1},   {9, 6, 2},
                               {10, 9, 2},  {11, 10, 3}, {12, 27, 3}, {13, 18, 3}, {14, 14, 3}, {15, 1, 0},  {16, 8, 2},  {17, 20, 3}, {18, 15, 3},
                               {19, 13, 3}, {20, 9, 2},  {21, 10, 2}, {22, 12, 2}, {23, 15, 2}, {24, 15, 2}, {25, 21, 2}, {26, 4, 1},  {27, 5, 1},
                               {28, 6, 1},  {29, 20, 3}, {30, 35, 3}, {31, 56, 3}, {92, 64, 3}, {93, 125, 3}};

struct RName {
  int dim, tag;
  std::string name;
};
struct REntity {
  int tag, pdim, ptag;
  std::vector<int> parts, phys, bound;
  Eigen::Vector3d lo, hi;
};
struct RNode {
  std::uint64_t tag;
  Eigen::Vector3d x;
};
struct RElem {
  std::uint64_t num;
  int type, phys, etag;
  std::vector<int> parts;
  std::vector<std::uint64_t> nodes;
};
struct RBlock {
  int dim, etag, type;
  std::vector<RElem> e;
};
struct RNodeBlock {
  int dim, etag;
  std::vector<RNode> n;
};
struct RPer {
  int dim, slave, master;
  std::optional<Eigen::Matrix4d> affine;
  std::vector<std::pair<std::uint64_t, std::uint64_t>> map;
};
struct RGhost {
  std::uint64_t elem;
  int part;
  std::vector<int> ghosts;
};
struct Raw {
  bool has_names = false, has_part = false, has_per = false, has_ghost = false;
  std::vector<RName> names;
  std::vector<REntity> ent[4], pent[4];
  std::uint64_t nparts = 0;
  std::vector<std::pair<int, int>> gents;
  std::vector<RNodeBlock> nodes;
  std::vector<RBlock> elems;
  std::vector<RPer> per;
  std::vector<RGhost> ghosts;
  std::string comment[8];
};

double number(Rng& r) {
  switch (r.uni(0, 7)) {
    case 0: return 0.0;
    case 1: return r.uni(-9, 9);
    case 2: return r.uni(-9999, 9999) / 16.0;
    case 3: return r.real(-1, 1) * 1e-13;
    case 4: return r.real(-1, 1) * 1e17;
    default: return r.real(-3, 3);
  }
}
Eigen::Vector3d point(Rng& r) { return {number(r), number(r), number(r)}; }
int anyint(Rng& r) {
  switch (r.uni(0, 5)) {
    case 0: return 0;
    case 1: return -r.uni(1, 1000);
    case 2: return r.pick(std::vector<int>{2147483647, -2147483647, 65536, 16777216, -65535, 255, 256});
    default: return r.uni(1, 99);
  }
}
std::vector<int> ints(Rng& r, int n) {
  std::vector<int> v(r.uni(0, n));
  for (auto& x : v) x = anyint(r);
  return v;
}
std::string word(Rng& r) {
  std::string s;
  const std::string abc = "abcXYZ019 _-+.,:;$#%&/(){}[]<>|~^'`\\!?=*@";
  for (int k = r.uni(1, 20); k > 0; --k) s += abc[r.uni(0, (int)abc.size() - 1)];
  return s;
}
Raw random_raw(Rng& r) {
  Raw m;
  m.has_names = r.coin(0.6);
  if (m.has_names)
    for (int k = r.uni(0, 5); k > 0; --k) m.names.push_back({r.uni(0, 3), anyint(r), word(r)});
  auto ents = [&](std::vector<REntity>* e) {
    for (int d = 0; d < 4; ++d)
      for (int k = r.uni(0, 4); k > 0; --k) e[d].push_back({anyint(r), r.uni(0, 3), anyint(r), ints(r, 3), ints(r, 3), ints(r, 4), point(r), point(r)});
  };
  ents(m.ent);
  m.has_part = r.coin(0.5);
  if (m.has_part) {
    m.nparts = r.uni(1, 9);
    for (int k = r.uni(0, 3); k > 0; --k) m.gents.push_back({anyint(r), anyint(r)});
    ents(m.pent);
  }
  std::uint64_t t = r.uni(1, 4);
  std::vector<std::uint64_t> tags;
  for (int b = r.uni(1, 5); b > 0; --b) {
    m.nodes.push_back({r.uni(0, 3), anyint(r), {}});
    for (int k = r.uni(0, 6); k > 0; --k) {
      m.nodes.back().n.push_back({t, point(r)});
      tags.push_back(t);
      t += r.coin(0.8) ? 1 : r.uni(2, 90000);
    }
  }
  if (tags.empty()) {
    m.nodes.back().n.push_back({t, point(r)});
    tags.push_back(t);
  }
  r.shuffle(m.nodes);
  std::uint64_t num = r.uni(1, 3);
  auto pool = kTypes;
  r.shuffle(pool);
  const int nb = r.uni(1, 12);
  for (int b = 0; b < nb; ++b) {
    const Type& ty = pool[b];
    RBlock bl{ty.dim, anyint(r), ty.id, {}};
    for (int k = r.uni(b == 0 ? 1 : 0, 4); k > 0; --k) {
      RElem e{num, ty.id, anyint(r), bl.etag, {}, {}};
      if (r.coin(0.4))
        for (int q = r.uni(1, 3); q > 0; --q) e.parts.push_back(r.coin(0.3) ? -r.uni(1, 9) : r.uni(1, 9));
      for (int q = 0; q < ty.nodes; ++q) e.nodes.push_back(r.pick(tags));
      bl.e.push_back(e);
      num += r.coin(0.8) ? 1 : r.uni(2, 5000);
    }
    m.elems.push_back(bl);
    event("type_" + std::to_string(ty.id));
  }
  m.has_per = r.coin(0.5);
  if (m.has_per)
    for (int k = r.uni(0, 3); k > 0; --k) {
      RPer p{r.uni(0, 2), anyint(r), anyint(r), {}, {}};
      if (r.coin()) {
        Eigen::Matrix4d a;
        for (int i = 0; i < 16; ++i) a(i / 4, i % 4) = number(r);
        p.affine = a;
      }
      for (int q = r.uni(0, 4); q > 0; --q) p.map.push_back({r.pick(tags), r.pick(tags)});
      m.per.push_back(p);
    }
  m.has_ghost = r.coin(0.4);
  if (m.has_ghost)
    for (int k = r.uni(0, 3); k > 0; --k) m.ghosts.push_back({(std::uint64_t)r.uni(1, 50), anyint(r), ints(r, 3)});
  for (auto& c : m.comment)
    if (r.coin(0.25)) {
      c = "$Comments\nanything: 1 2 3 \"quoted\"\n$EndComments\n";
      event("comment_section");
    }
  return m;
}

File put2(Rng& r, const Raw& m, Enc enc) {
  Writer w;
  w.f.version = 2;
  w.f.enc = enc;
  const bool bin = enc != text;
  w.header("2.2");
  w.raw(m.comment[0]);
  if (m.has_names) {
    w.marker("$PhysicalNames");
    w.tok(std::to_string(m.names.size()), "", "\n");
    for (auto& n : m.names) w.raw(std::to_string(n.dim) + " " + std::to_string(n.tag) + " \"" + n.name + "\"\n");
    w.marker("$EndPhysicalNames");
  }
  w.raw(m.comment[1]);
  std::size_t n = 0, ne = 0;
  for (auto& b : m.nodes) n += b.n.size();
  for (auto& b : m.elems) ne += b.e.size();
  w.marker("$Nodes");
  w.tok(std::to_string(n), "", "\n");
  for (auto& b : m.nodes)
    for (auto& x : b.n) {
      w.i32((int)x.tag, "", " ");
      for (int k = 0; k < 3; ++k) w.dbl(x.x(k), k < 2 ? " " : "\n");
    }
  if (bin) w.raw("\n");
  w.marker("$EndNodes");
  w.raw(m.comment[2]);
  w.marker("$Elements");
  w.tok(std::to_string(ne), "", "\n");
  auto ntags = [](const RElem& e) { return e.parts.empty() ? 2 : 3 + (int)e.parts.size(); };
  for (auto& b : m.elems)
    for (std::size_t i = 0; i < b.e.size();) {
      std::size_t j = i + 1;
      if (bin) {
        while (j < b.e.size() && ntags(b.e[j]) == ntags(b.e[i]) && r.coin(0.8)) ++j;
        w.i32(b.type, "", ""), w.i32((int)(j - i), "", ""), w.i32(ntags(b.e[i]), "", "");
      }
      for (; i < j; ++i) {
        const RElem& e = b.e[i];
        w.i32((int)e.num, "", " ");
        if (!bin) w.i32(e.type, "", " "), w.i32(ntags(e), "", " ");
        w.i32(e.phys, "", " ");
        w.i32(e.etag, "", " ");
        if (!e.parts.empty()) {
          w.i32((int)e.parts.size(), "", " ");
          for (int p : e.parts) w.i32(p, "", " ");
        }
        for (std::size_t k = 0; k < e.nodes.size(); ++k) w.i32((int)e.nodes[k], "", k + 1 < e.nodes.size() ? " " : "\n");
      }
    }
  if (bin) w.raw("\n");
  w.marker("$EndElements");
  w.raw(m.comment[3]);
  if (m.has_per) {
    w.marker("$Periodic");
    w.tok(std::to_string(m.per.size()), "", "\n");
    for (auto& p : m.per) {
      w.raw(std::to_string(p.dim) + " " + std::to_string(p.slave) + " " + std::to_string(p.master) + "\n" + std::to_string(p.map.size()) + "\n");
      for (auto& [a, b] : p.map) w.raw(std::to_string(a) + " " + std::to_string(b) + "\n");
    }
    w.marker("$EndPeriodic");
  }
  w.raw(m.comment[4]);
  return w.f;
}

File put4(Rng&, const Raw& m, Enc enc) {
  Writer w;
  w.f.version = 4;
  w.f.enc = enc;
  const bool bin = enc != text;
  w.header("4.1");
  w.raw(m.comment[0]);
  if (m.has_names) {
    w.marker("$PhysicalNames");
    w.tok(std::to_string(m.names.size()), "", "\n");
    for (auto& n : m.names) w.raw(std::to_string(n.dim) + " " + std::to_string(n.tag) + " \"" + n.name + "\"\n");
    w.marker("$EndPhysicalNames");
  }
  w.raw(m.comment[1]);
  auto vec = [&](const Eigen::Vector3d& x) {
    for (int k = 0; k < 3; ++k) w.dbl(x(k), " ");
  };
  auto list = [&](const std::vector<int>& v) {
    w.u64(v.size(), "", " ");
    for (int x : v) w.i32(x, "", " ");
  };
  auto entities = [&](const std::vector<REntity>* e, bool part) {
    for (int d = 0; d < 4; ++d) w.u64(e[d].size(), "", d < 3 ? " " : "\n");
    for (int d = 0; d < 4; ++d)
      for (auto& x : e[d]) {
        w.i32(x.tag, "", " ");
        if (part) {
          w.i32(x.pdim, "", " "), w.i32(x.ptag, "", " ");
          list(x.parts);
        }
        vec(x.lo);
        if (d > 0) vec(x.hi);
        list(x.phys);
        if (d > 0) list(x.bound);
        if (!bin) w.raw("\n");
      }
  };
  w.marker("$Entities");
  entities(m.ent, false);
  if (bin) w.raw("\n");
  w.marker("$EndEntities");
  w.raw(m.comment[2]);
  if (m.has_part) {
    w.marker("$PartitionedEntities");
    w.u64(m.nparts, "", "\n");
    w.u64(m.gents.size(), "", "\n");
    for (auto& [a, b] : m.gents) w.i32(a, "", " "), w.i32(b, "", "\n");
    entities(m.pent, true);
    if (bin) w.raw("\n");
    w.marker("$EndPartitionedEntities");
    w.raw(m.comment[3]);
  }
  std::uint64_t lo = ~0ULL, hi = 0, n = 0;
  for (auto& b : m.nodes)
    for (auto& x : b.n) lo = std::min(lo, x.tag), hi = std::max(hi, x.tag), ++n;
  w.marker("$Nodes");
  w.u64(m.nodes.size(), "", " "), w.u64(n, "", " "), w.u64(lo, "", " "), w.u64(hi, "", "\n");
  for (auto& b : m.nodes) {
    w.i32(b.dim, "", " "), w.i32(b.etag, "", " "), w.i32(0, "", " "), w.u64(b.n.size(), "", "\n");
    for (auto& x : b.n) w.u64(x.tag, "", "\n");
    for (auto& x : b.n) w.dbl(x.x(0), " "), w.dbl(x.x(1), " "), w.dbl(x.x(2), "\n");
  }
  if (bin) w.raw("\n");
  w.marker("$EndNodes");
  w.raw(m.comment[4]);
  std::uint64_t elo = ~0ULL, ehi = 0, ne = 0;
  for (auto& b : m.elems)
    for (auto& e : b.e) elo = std::min(elo, e.num), ehi = std::max(ehi, e.num), ++ne;
  w.marker("$Elements");
  w.u64(m.elems.size(), "", " "), w.u64(ne, "", " "), w.u64(elo, "", " "), w.u64(ehi, "", "\n");
  for (auto& b : m.elems) {
    w.i32(b.dim, "", " "), w.i32(b.etag, "", " "), w.i32(b.type, "", " "), w.u64(b.e.size(), "", "\n");
    for (auto& e : b.e) {
      w.u64(e.num, "", " ");
      for (std::size_t k = 0; k < e.nodes.size(); ++k) w.u64(e.nodes[k], "", k + 1 < e.nodes.size() ? " " : "\n");
    }
  }
  if (bin) w.raw("\n");
  w.marker("$EndElements");
  w.raw(m.comment[5]);
  if (m.has_per) {
    w.marker("$Periodic");
    w.u64(m.per.size(), "", "\n");
    for (auto& p : m.per) {
      w.i32(p.dim, "", " "), w.i32(p.slave, "", " "), w.i32(p.master, "", "\n");
      w.u64(p.affine ? 16 : 0, "", p.affine ? " " : "\n");
      if (p.affine)
        for (int i = 0; i < 16; ++i) w.dbl((*p.affine)(i / 4, i % 4), i < 15 ? " " : "\n");
      w.u64(p.map.size(), "", "\n");
      for (auto& [a, b] : p.map) w.u64(a, "", " "), w.u64(b, "", "\n");
    }
    if (bin) w.raw("\n");
    w.marker("$EndPeriodic");
    w.raw(m.comment[6]);
  }
  if (m.has_ghost) {
    w.marker("$GhostElements");
    w.u64(m.ghosts.size(), "", "\n");
    for (auto& g : m.ghosts) {
      w.u64(g.elem, "", " "), w.i32(g.part, "", " ");
      list(g.ghosts);
      if (!bin) w.raw("\n");
    }
    if (bin) w.raw("\n");
    w.marker("$EndGhostElements");
  }
  w.raw(m.comment[7]);
  return w.f;
}

bool same_point(const Eigen::Vector3d& a, const Eigen::Vector3d& b) {
  for (int k = 0; k < 3; ++k)
    if (!(std::abs(a(k) - b(k)) <= 4e-15 * std::abs(b(k)))) return false;
  return true;
}

void check2(const Raw& m, const V2& v, const File& f) {
  const std::string n = f.name();
  MON_CHECK(v.VersionNumber == "2.2" && v.IsBinary == (f.enc != text) && v.DoubleSize == 8, "header", n);
  MON_REQUIRE(v.PhysicalEntities.size() == m.names.size(), "names", n << " " << v.PhysicalEntities.size() << " of " << m.names.size());
  for (std::size_t i = 0; i < m.names.size(); ++i)
    MON_CHECK(v.PhysicalEntities[i].Dimension == m.names[i].dim && v.PhysicalEntities[i].Number == m.names[i].tag && v.PhysicalEntities[i].Name == m.names[i].name, "name",
              n << " " << m.names[i].name << " read as " << v.PhysicalEntities[i].Name);
  std::size_t k = 0;
  for (auto& b : m.nodes)
    for (auto& x : b.n) {
      MON_REQUIRE(k < v.Nodes.size(), "nodes", n << " " << v.Nodes.size());
      MON_CHECK(v.Nodes[k].first == x.tag && same_point(v.Nodes[k].second, x.x), "node", n << " " << x.tag << " read as " << v.Nodes[k].first << " at " << v.Nodes[k].second.transpose());
      ++k;
    }
  MON_CHECK(k == v.Nodes.size(), "nodes", n << " " << v.Nodes.size() << " of " << k);
  k = 0;
  for (auto& b : m.elems)
    for (auto& e : b.e) {
      MON_REQUIRE(k < v.Elements.size(), "elements", n << " " << v.Elements.size());
      const auto& g = v.Elements[k++];
      MON_CHECK((std::uint64_t)g.Number == e.num && (int)g.Type == e.type, "element", n << " " << e.num << " type " << e.type << " read as " << g.Number << " type " << (int)g.Type);
      MON_CHECK(g.PhysicalEntityNr == e.phys && g.ElementaryEntityNr == e.etag, "element_tags", n << " element " << e.num);
      MON_CHECK(g.MeshPartitions == e.parts, "element_partitions", n << " element " << e.num);
      MON_CHECK((std::vector<std::uint64_t>(g.NodeNumbers.begin(), g.NodeNumbers.end()) == e.nodes), "element_nodes", n << " element " << e.num << " of type " << e.type << " has " << g.NodeNumbers.size() << " nodes");
    }
  MON_CHECK(k == v.Elements.size(), "elements", n << " " << v.Elements.size() << " of " << k);
  const auto per = m.has_per ? m.per : std::vector<RPer>{};
  MON_REQUIRE(v.Periodic.size() == per.size(), "periodic", n << " " << v.Periodic.size() << " of " << per.size());
  for (std::size_t i = 0; i < per.size(); ++i) {
    const auto& g = v.Periodic[i];
    MON_CHECK(g.Dimension == per[i].dim && g.ElementarySlaveNr == per[i].slave && g.ElementaryMasterNr == per[i].master, "periodic_link", n << " link " << i);
    MON_CHECK((std::vector<std::pair<std::uint64_t, std::uint64_t>>(g.NodeMapping.begin(), g.NodeMapping.end()) == per[i].map), "periodic_nodes", n << " link " << i);
  }
}

template <class E>
void check_entity(const E& g, const REntity& e, int dim, bool part, const std::string& n) {
  MON_CHECK(g.tag == e.tag, "entity_tag", n << " dimension " << dim << ": " << e.tag << " read as " << g.tag);
  MON_CHECK(g.physical_tags == e.phys, "entity_groups", n << " dimension " << dim << " tag " << e.tag);
  if constexpr (requires { g.coord; }) MON_CHECK(same_point(g.coord, e.lo), "entity_coord", n << " tag " << e.tag);
  if constexpr (requires { g.min_coord; }) {
    MON_CHECK(same_point(g.min_coord, e.lo) && same_point(g.max_coord, e.hi), "entity_box", n << " dimension " << dim << " tag " << e.tag);
    MON_CHECK(g.bounding_entities == e.bound, "entity_bounding", n << " dimension " << dim << " tag " << e.tag);
  }
  if constexpr (requires { g.parent_tag; }) MON_CHECK(g.parent_dim == e.pdim && g.parent_tag == e.ptag && g.partitions == e.parts, "entity_parent", n << " dimension " << dim << " tag " << e.tag);
}
template <class T>
void check_entities(const T& t, const std::vector<REntity>* e, bool part, const std::string& n) {
  auto one = [&](const auto& v, int d) {
    MON_REQUIRE(v.size() == e[d].size(), "entities", n << " dimension " << d << ": " << v.size() << " of " << e[d].size());
    for (std::size_t i = 0; i < v.size(); ++i) check_entity(v[i], e[d][i], d, part, n);
  };
  one(std::get<0>(t), 0), one(std::get<1>(t), 1), one(std::get<2>(t), 2), one(std::get<3>(t), 3);
}

void check4(const Raw& m, const V4& v, const File& f) {
  const std::string n = f.name();
  MON_CHECK(v.version_number == "4.1" && v.is_binary == (f.enc != text) && v.size_t_size == 8, "header", n);
  MON_REQUIRE(v.physical_names.size() == m.names.size(), "names", n << " " << v.physical_names.size() << " of " << m.names.size());
  for (std::size_t i = 0; i < m.names.size(); ++i)
    MON_CHECK(v.physical_names[i].dimension == m.names[i].dim && v.physical_names[i].physical_tag == m.names[i].tag && v.physical_names[i].name == m.names[i].name, "name",
              n << " " << m.names[i].name << " read as " << v.physical_names[i].name);
  check_entities(v.entities, m.ent, false, n);
  MON_CHECK(v.partitioned_entities.num_partitions == m.nparts, "num_partitions", n);
  check_entities(v.partitioned_entities.partitioned_entities, m.pent, true, n + " partitioned");
  MON_REQUIRE(v.partitioned_entities.ghost_entities.size() == m.gents.size(), "ghost_entities", n);
  for (std::size_t i = 0; i < m.gents.size(); ++i)
    MON_CHECK(v.partitioned_entities.ghost_entities[i].tag == m.gents[i].first && v.partitioned_entities.ghost_entities[i].partition == m.gents[i].second, "ghost_entity", n << " " << i);
  std::uint64_t lo = ~0ULL, hi = 0, cnt = 0;
  MON_REQUIRE(v.nodes.node_blocks.size() == m.nodes.size(), "node_blocks", n);
  for (std::size_t b = 0; b < m.nodes.size(); ++b) {
    const auto& g = v.nodes.node_blocks[b];
    const auto& e = m.nodes[b];
    MON_CHECK(g.entity_dim == e.dim && g.entity_tag == e.etag && !g.parametric, "node_block", n << " block " << b);
    MON_REQUIRE(g.nodes.size() == e.n.size(), "nodes", n << " block " << b << ": " << g.nodes.size() << " of " << e.n.size());
    for (std::size_t i = 0; i < e.n.size(); ++i) {
      MON_CHECK(g.nodes[i].first == e.n[i].tag && same_point(g.nodes[i].second, e.n[i].x), "node", n << " " << e.n[i].tag << " read as " << g.nodes[i].first << " at " << g.nodes[i].second.transpose());
      lo = std::min(lo, e.n[i].tag), hi = std::max(hi, e.n[i].tag), ++cnt;
    }
  }
  MON_CHECK(v.nodes.num_nodes == cnt && v.nodes.min_node_tag == lo && v.nodes.max_node_tag == hi, "node_range", n);
  lo = ~0ULL, hi = 0, cnt = 0;
  MON_REQUIRE(v.elements.element_blocks.size() == m.elems.size(), "element_blocks", n);
  for (std::size_t b = 0; b < m.elems.size(); ++b) {
    const auto& g = v.elements.element_blocks[b];
    const auto& e = m.elems[b];
    MON_CHECK(g.dimension == e.dim && g.entity_tag == e.etag && (int)g.element_type == e.type, "element_block", n << " block " << b);
    MON_REQUIRE(g.elements.size() == e.e.size(), "elements", n << " block " << b << ": " << g.elements.size() << " of " << e.e.size());
    for (std::size_t i = 0; i < e.e.size(); ++i) {
      MON_CHECK(g.elements[i].first == e.e[i].num, "element", n << " " << e.e[i].num << " read as " << g.elements[i].first);
      MON_CHECK((std::vector<std::uint64_t>(g.elements[i].second.begin(), g.elements[i].second.end()) == e.e[i].nodes), "element_nodes", n << " element " << e.e[i].num << " of type " << e.type << " has " << g.elements[i].second.size() << " nodes");
      lo = std::min(lo, e.e[i].num), hi = std::max(hi, e.e[i].num), ++cnt;
    }
  }
  MON_CHECK(v.elements.num_elements == cnt && v.elements.min_element_tag == lo && v.elements.max_element_tag == hi, "element_range", n);
  MON_REQUIRE(v.periodic_links.size() == m.per.size(), "periodic", n << " " << v.periodic_links.size() << " of " << m.per.size());
  for (std::size_t i = 0; i < m.per.size(); ++i) {
    const auto& g = v.periodic_links[i];
    const auto& e = m.per[i];
    MON_CHECK(g.dimension == e.dim && g.entity_tag_slave == e.slave && g.entity_tag_master == e.master, "periodic_link", n << " link " << i);
    MON_CHECK(g.affine_transform.has_value() == e.affine.has_value(), "periodic_affine", n << " link " << i << " read " << g.affine_transform.has_value());
    if (g.affine_transform && e.affine)
      MON_CHECK(((*g.affine_transform - *e.affine).cwiseAbs().array() <= 4e-15 * e.affine->cwiseAbs().array()).all(), "periodic_affine", n << " link " << i << "\n" << *g.affine_transform << "\ninstead of\n" << *e.affine);
    MON_CHECK((std::vector<std::pair<std::uint64_t, std::uint64_t>>(g.node_mapping.begin(), g.node_mapping.end()) == e.map), "periodic_nodes", n << " link " << i);
  }
  MON_REQUIRE(v.ghost_elements.size() == m.ghosts.size(), "ghosts", n << " " << v.ghost_elements.size() << " of " << m.ghosts.size());
  for (std::size_t i = 0; i < m.ghosts.size(); ++i)
    MON_CHECK(v.ghost_elements[i].element_tag == m.ghosts[i].elem && v.ghost_elements[i].partition_tag == m.ghosts[i].part && v.ghost_elements[i].ghost_partition_tags == m.ghosts[i].ghosts, "ghost", n << " " << i);
}

void records(Rng& r, u64) {
  const Raw m = random_raw(r);
  Quiet q;
  u64 h = 7;
  for (int ver : {2, 4})
    for (Enc enc : {text, le, be}) {
      const File f = ver == 2 ? put2(r, m, enc) : put4(r, m, enc);
      for (char c : f.s) h = h * 131 + (unsigned char)c;
      const std::string fn = env().scratch + "/raw.msh";
      {
        std::ofstream o(fn, std::ios::binary | std::ios::trunc);
        o.write(f.s.data(), (std::streamsize)f.s.size());
      }
      std::optional<std::variant<V2, V4>> got;
      const bool ok = no_throw("accepted", [&] { got = lf::io::ReadGmshFile(fn); });
      if (env().replay && std::getenv("MON_KEEP")) std::cerr << f.name() << "\n" << f.s << "\n" << q.sink.str() << "\n";
      if (!ok) continue;
      MON_REQUIRE(got->index() == (ver == 2 ? 0U : 1U), "version", f.name());
      if (ver == 2)
        check2(m, std::get<0>(*got), f);
      else
        check4(m, std::get<1>(*got), f);
      event("file_" + std::to_string(ver) + (enc == text ? "_text" : enc == le ? "_le" : "_be"));
    }
  if (!m.names.empty()) event("names");
  if (m.has_per && !m.per.empty()) event("periodic");
  if (m.has_part) event("partitioned");
  if (!m.ghosts.empty()) event("ghosts");
  sig(h);
  sample(std::to_string(m.elems.size()) + " element blocks");
}

// the tables of element types agree with the Gmsh manual
void types(Rng& r, u64) {
  using lf::base::RefEl;
  auto check = [&](auto id, const auto& all, const char* v) {
    using T = decltype(id);
    std::set<int> seen;
    std::set<std::string> names;
    for (auto t : all) {
      seen.insert((int)t);
      std::ostringstream o;
      o << t;
      MON_CHECK(!o.str().empty() && names.insert(o.str()).second, "type_name_unique", v << " type " << (int)t << " is printed as " << o.str());
      MON_CHECK(fmt::format("{}", t) == o.str(), "type_name_format", v << " " << o.str());
    }
    MON_CHECK(all.size() == kTypes.size() && seen.size() == kTypes.size(), "type_list", v << " lists " << seen.size());
    for (auto& k : kTypes) {
      const auto t = (T)k.id;
      MON_CHECK(seen.count(k.id), "type_listed", v << " " << k.id);
      MON_CHECK((int)NumNodes(t) == k.nodes, "type_nodes", v << " type " << k.id << " has " << NumNodes(t) << " nodes");
      MON_CHECK(DimOf(t) == k.dim, "type_dim", v << " type " << k.id << " has dimension " << DimOf(t));
      const bool tria = k.id == 2 || k.id == 9 || (k.id >= 20 && k.id <= 25);
      if (k.dim < 3) {
        const RefEl e = k.dim == 0 ? RefEl::kPoint() : k.dim == 1 ? RefEl::kSegment() : tria ? RefEl::kTria() : RefEl::kQuad();
        MON_CHECK(RefElOf(t) == e, "type_refel", v << " type " << k.id << " is " << RefElOf(t));
      }
      event("types");
    }
  };
  check(V2::ElementType::EDGE2, V2::AllElementTypes, "2.2");
  check(V4::ElementType::EDGE2, V4::AllElementTypes, "4.1");
  sig(r.next());
}
}  // namespace

void mon::register_all() {
  stream("I05", "records", 400, 15000, records);
  stream("I05", "types", 1, 1, types);
  expect("I05", {"names", "periodic", "partitioned", "ghosts", "comment_section", "types", "file_2_text", "file_2_le", "file_2_be", "file_4_text", "file_4_le", "file_4_be"});
  for (auto& k : kTypes) expect("I05", {("type_" + std::to_string(k.id)).c_str()});
}
