// I04: Matlab, CSV and TikZ exports.
#include <lf/io/io.h>
#include <lf/refinement/refutils.h>

#include <filesystem>
#include <regex>

#include "hier.h"

using namespace mon;
using namespace gen;

namespace {
namespace fs = std::filesystem;
using lf::mesh::Mesh;

constexpr double kText = 1.1e-5;  // six significant digits and rounding

std::vector<std::string> lines_of(const fs::path& p) {
  std::ifstream in(p);
  std::vector<std::string> r;
  for (std::string l; std::getline(in, l);) r.push_back(l);
  return r;
}

// a private directory that holds nothing but what the call under test wrote
struct Dir {
  fs::path p;
  Dir() : p(fs::path(env().scratch) / "export") {
    fs::remove_all(p);
    fs::create_directories(p / "sub");
  }
  ~Dir() {
    std::error_code e;
    fs::remove_all(p, e);
  }
  std::vector<std::string> files() const {
    std::vector<std::string> r;
    for (auto& e : fs::recursive_directory_iterator(p))
      if (e.is_regular_file()) r.push_back(fs::relative(e.path(), p).string());
    std::sort(r.begin(), r.end());
    return r;
  }
};

std::string rnd_stem(Rng& r) {
  static const std::string chars = "abcmmvsxyzABC019_";
  std::string s(1, "abcmxsv"[r.uni(0, 6)]);
  for (int i = r.coin(0.3) ? 0 : r.uni(0, 6); i > 0; --i) s += chars[r.uni(0, chars.size() - 1)];
  return s;
}

bool num_eq(double a, double b, double tiny) { return std::abs(a - b) <= kText * std::abs(b) + tiny; }

std::string squeeze(const std::string& s) {
  std::string r;
  for (char c : s)
    if (c != ' ' && c != '\t' && c != '\r') r += c;
  return r;
}
// numbers separated by commas
std::vector<double> numbers(const std::string& s) {
  std::vector<double> r;
  std::stringstream ss(s);
  for (std::string t; std::getline(ss, t, ',');) {
    std::size_t n = 0;
    double v = 0;
    try {
      v = std::stod(t, &n);
    } catch (const std::exception&) {
      n = std::string::npos;
    }
    if (n != t.size()) {
      violation("number", "'" + t + "' in '" + s + "'");
      throw CaseAborted{};
    }
    r.push_back(v);
  }
  return r;
}

// assignments of a Matlab function: variable -> (row -> values)
struct Matlab {
  std::string name;
  std::map<std::string, std::vector<std::pair<int, std::vector<double>>>> rows;
  std::map<std::string, std::vector<double>> zeros;
};
Matlab read_matlab(const fs::path& p, const std::string& head) {
  Matlab m;
  const auto ls = lines_of(p);
  MON_REQUIRE(!ls.empty(), "file_written", p);
  static const std::regex fn(R"(function\[([A-Za-z,]*)\]=(.*)\(\))");
  std::smatch q;
  const std::string first = squeeze(ls[0]);
  MON_REQUIRE(std::regex_match(first, q, fn) && q[1] == head, "matlab_function", first);
  m.name = q[2];
  static const std::regex scal(R"(([A-Za-z]+)\((\d+)\)=([^;\[\]]+);)"), row(R"(([A-Za-z]+)\((\d+),:\)=\[([^;\[\]]*)\];)"), zero(R"(([A-Za-z]+)=zeros\(([^()]*)\);)"), empty(R"(([A-Za-z]+)=\[\];)");
  for (std::size_t i = 1; i < ls.size(); ++i) {
    std::string l = squeeze(ls[i]);
    if (l.empty() || l[0] == '%') continue;
    while (!l.empty()) {
      const auto e = l.find(';');
      const std::string st = l.substr(0, e == std::string::npos ? e : e + 1);
      l = e == std::string::npos ? "" : l.substr(e + 1);
      if (std::regex_match(st, q, scal) || std::regex_match(st, q, row))
        m.rows[q[1]].push_back({std::stoi(q[2]), numbers(q[3])});
      else if (std::regex_match(st, q, zero))
        m.zeros[q[1]] = numbers(q[2]);
      else if (std::regex_match(st, q, empty))
        m.rows[q[1]];
      else {
        violation("matlab_statement", "'" + st + "'");
        throw CaseAborted{};
      }
    }
  }
  return m;
}
// rows 1..n each assigned once, in any order
std::vector<std::vector<double>> table(Matlab& m, const std::string& var, std::size_t n, std::size_t cols, const std::string& tag) {
  auto& v = m.rows[var];
  MON_REQUIRE(v.size() == n, "row_count", tag << " " << var << " has " << v.size() << " rows instead of " << n);
  std::vector<std::vector<double>> t(n);
  for (auto& [k, x] : v) {
    MON_REQUIRE(k >= 1 && k <= (int)n && t[k - 1].empty() && x.size() == cols, "row", tag << " " << var << " row " << k);
    t[k - 1] = x;
  }
  if (m.zeros.count(var)) MON_CHECK(m.zeros[var].size() == 2 && m.zeros[var][0] == n && m.zeros[var][1] == cols, "zeros", tag << " " << var);
  return t;
}
std::vector<double> corner_list(const Mesh& m, const Entity& e, int base) {
  std::vector<double> r;
  for (const Entity* p : e.SubEntities(2 - e.Codim())) r.push_back((double)m.Index(*p) + base);
  return r;
}

void check_matlab(const Mesh& m, const fs::path& p, const std::string& name, double tiny, const std::string& tag) {
  Matlab f = read_matlab(p, "x,y,TRI,QUAD,EDS");
  MON_CHECK(f.name == name, "matlab_name", tag << " function " << f.name << " in " << p);
  const std::size_t n = m.NumEntities(2);
  const auto x = table(f, "x", n, 1, tag), y = table(f, "y", n, 1, tag), ed = table(f, "EDS", m.NumEntities(1), 2, tag);
  for (const Entity* q : m.Entities(2)) {
    const VectorXd z = node_pos(*q);
    const auto i = m.Index(*q);
    MON_CHECK(num_eq(x[i][0], z(0), tiny) && num_eq(y[i][0], z(1), tiny), "matlab_node", tag << " node " << i << " at " << x[i][0] << "," << y[i][0] << " expected " << mstr(z));
  }
  for (const Entity* e : m.Entities(1)) MON_CHECK(ed[m.Index(*e)] == corner_list(m, *e, 1), "matlab_edge", tag << " edge " << m.Index(*e));
  std::map<double, std::vector<double>> got;
  for (int nc : {3, 4}) {
    const auto t = table(f, nc == 3 ? "TRI" : "QUAD", m.NumEntities(nc == 3 ? lf::base::RefEl::kTria() : lf::base::RefEl::kQuad()), nc + 1, tag);
    for (auto& r : t) {
      MON_CHECK(!got.count(r.back()), "matlab_cell_twice", tag << " cell " << r.back());
      got[r.back()] = std::vector<double>(r.begin(), r.end() - 1);
    }
  }
  for (const Entity* e : m.Entities(0)) {
    const auto i = (double)m.Index(*e);
    MON_CHECK(got.count(i) && got[i] == corner_list(m, *e, 1), "matlab_cell", tag << " cell " << i);
  }
}

Opts planar() {
  Opts o;
  o.max_cells = thorough() ? 60 : 25;
  o.dw = 2;
  return o;
}

void matlab(Rng& r, u64) {
  const Desc d = random_desc(r, planar());
  const auto m = build(d);
  Dir dir;
  const std::string stem = rnd_stem(r), sub = r.coin(0.3) ? "sub/" : "", ext = r.coin() ? ".m" : "";
  const std::string tag = "'" + sub + stem + ext + "' " + describe(d);
  lf::io::writeMatlab(*m, (dir.p / (sub + stem + ext)).string());
  const auto fl = dir.files();
  MON_REQUIRE(fl == std::vector<std::string>{sub + stem + ".m"}, "file_name", tag << " wrote " << (fl.empty() ? std::string("nothing") : fl[0]));
  check_matlab(*m, dir.p / fl[0], stem, 1e-300, tag);
  sig(d.hash());
  event(ext.empty() ? "matlab_completed" : "matlab_given");
  if (ext.empty() && stem.back() == 'm') event("stem_m");
}

void csv(Rng& r, u64) {
  const Desc d = random_desc(r, planar());
  const auto m = build(d);
  Dir dir;
  const std::string stem = rnd_stem(r), sub = r.coin(0.3) ? "sub/" : "", ext = r.coin() ? ".csv" : "";
  const std::string tag = "'" + sub + stem + ext + "' " + describe(d);
  const fs::path old = fs::current_path();
  const bool relative = r.coin();
  if (relative) {
    fs::current_path(dir.p);
    event("relative_name");
  }
  try {
    lf::io::writeMatplotlib(*m, relative ? sub + stem + ext : (dir.p / (sub + stem + ext)).string());
  } catch (...) {
    fs::current_path(old);
    throw;
  }
  fs::current_path(old);
  const auto fl = dir.files();
  MON_REQUIRE(fl == std::vector<std::string>{sub + stem + ".csv"}, "file_name", tag << " wrote " << (fl.empty() ? std::string("nothing") : fl[0]));
  std::map<std::pair<int, int>, std::vector<double>> got;
  for (auto l : lines_of(dir.p / fl[0])) {
    l = squeeze(l);
    if (l.empty()) continue;
    while (!l.empty() && l.back() == ',') l.pop_back();
    const auto v = numbers(l);
    MON_REQUIRE(v.size() >= 4, "csv_line", tag << " '" << l << "'");
    MON_CHECK(got.emplace(std::make_pair((int)v[0], (int)v[1]), std::vector<double>(v.begin() + 2, v.end())).second, "csv_twice", tag << " '" << l << "'");
  }
  std::size_t total = 0;
  for (int cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m->Entities(cd)) {
      ++total;
      const auto i = m->Index(*e);
      const auto it = got.find({cd, (int)i});
      MON_REQUIRE(it != got.end(), "csv_entity", tag << " codim " << cd << " index " << i << " missing");
      if (cd == 2) {
        const VectorXd z = node_pos(*e);
        MON_CHECK(it->second.size() == 2 && num_eq(it->second[0], z(0), 1e-300) && num_eq(it->second[1], z(1), 1e-300), "csv_node", tag << " node " << i);
      } else {
        std::vector<double> w;
        for (const Entity* s : e->SubEntities(1)) w.push_back((double)m->Index(*s));
        MON_CHECK(it->second == w, "csv_cell", tag << " codim " << cd << " index " << i);
      }
    }
  MON_CHECK(got.size() == total, "csv_extra", tag << " " << got.size() << " lines for " << total << " entities");
  sig(d.hash());
  event(ext.empty() ? "csv_completed" : "csv_given");
  if (stem.size() < 4 && relative && sub.empty()) event("short_name");
}

// --- TikZ ---------------------------------------------------------------
struct Draw {
  bool arrow = false, cycle = false;
  std::vector<Eigen::Vector2d> pts;
  // label after point k, or on the segment (k = -1)
  std::vector<std::pair<int, std::string>> labels;
};
// \draw[..] (x,y) node[..] {l} -- (x,y) ... ;
Draw read_draw(const std::string& s) {
  Draw d;
  auto bad = [&](const std::string& w) {
    violation("tikz_syntax", w + " in '" + s + "'");
    throw CaseAborted{};
  };
  std::size_t p = 5;  // \draw
  auto ws = [&] {
    while (p < s.size() && s[p] == ' ') ++p;
  };
  bool line = false;
  ws();
  if (p < s.size() && s[p] == '[') {
    const auto e = s.find(']', p);
    if (e == std::string::npos) bad("option");
    d.arrow = s.substr(p, e - p).find("->") != std::string::npos;
    p = e + 1;
  }
  while (true) {
    ws();
    if (p >= s.size()) bad("no semicolon");
    if (s[p] == ';') break;
    if (s[p] == '(') {
      const auto e = s.find(')', p);
      if (e == std::string::npos) bad("point");
      const auto v = numbers(s.substr(p + 1, e - p - 1));
      if (v.size() != 2) bad("point");
      d.pts.emplace_back(v[0], v[1]);
      line = false;
      p = e + 1;
    } else if (s.compare(p, 2, "--") == 0) {
      line = true;
      p += 2;
    } else if (s.compare(p, 4, "node") == 0) {
      p += 4;
      ws();
      if (p < s.size() && s[p] == '[') {
        p = s.find(']', p);
        if (p == std::string::npos) bad("node");
        ++p;
      }
      ws();
      const auto e = s.find('}', p);
      if (p >= s.size() || s[p] != '{' || e == std::string::npos) bad("label");
      d.labels.push_back({line ? -1 : (int)d.pts.size() - 1, s.substr(p + 1, e - p - 1)});
      p = e + 1;
    } else if (s.compare(p, 5, "cycle") == 0) {
      d.cycle = true;
      p += 5;
    } else
      bad("token");
  }
  return d;
}

void tikz(Rng& r, u64) {
  Opts o = planar();
  o.max_cells = thorough() ? 120 : 60;
  const Desc d = random_desc(r, o);
  const auto m = build(d);
  Dir dir;
  const std::string name = rnd_stem(r) + (r.coin() ? ".txt" : r.coin() ? ".tex" : "");
  using C = lf::io::TikzOutputCtrl;
  unsigned fl = r.uni(0, 127);
  const int how = r.uni(0, 3);  // 0 no selector, 1 random, 2 one codimension, 3 default flags
  std::map<const Entity*, bool> sel;
  const int cd0 = r.uni(0, 2);
  for (int cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m->Entities(cd)) sel[e] = how == 1 ? r.coin() : how == 2 ? cd == cd0 : true;
  const std::string file = (dir.p / name).string();
  const std::string tag = "flags " + std::to_string(fl) + " selector " + std::to_string(how) + " " + describe(d);
  C ctrl = static_cast<C>(fl);
  if (r.coin()) {
    ctrl = static_cast<C>(0U);
    for (unsigned b = 1; b < 128; b *= 2)
      if (fl & b) ctrl = ctrl | static_cast<C>(b);
    for (unsigned b = 1; b < 128; b *= 2) MON_CHECK((unsigned)(ctrl & static_cast<C>(b)) == (fl & b), "flag_ops", tag);
  }
  bool ok = false;
  if (how == 3) {
    fl = 7;  // documented default
    ok = r.coin() ? lf::io::writeTikZ(*m, file) : lf::io::writeTikZ(*m, file, [&](const Entity& e) { return sel.at(&e); });
  } else if (how == 0)
    ok = lf::io::writeTikZ(*m, file, ctrl);
  else
    ok = lf::io::writeTikZ(*m, file, [&](const Entity& e) { return sel.at(&e); }, ctrl);
  MON_CHECK(ok, "tikz_result", tag);
  const auto files = dir.files();
  MON_REQUIRE(files == std::vector<std::string>{name}, "file_name", tag);
  MON_CHECK(!lf::io::writeTikZ(*m, (dir.p / "nowhere" / name).string(), ctrl), "tikz_unwritable", tag);
  const auto ls = lines_of(dir.p / name);
  int begin_doc = 0, end_doc = 0, begin_pic = 0, end_pic = 0;
  std::vector<Draw> dr;
  for (auto& l : ls) {
    if (l.find("\\begin{document}") != std::string::npos) begin_doc++;
    if (l.find("\\end{document}") != std::string::npos) end_doc += begin_doc == 1 && end_pic == 1;
    if (l.find("\\begin{tikzpicture}") != std::string::npos) begin_pic++;
    if (l.find("\\end{tikzpicture}") != std::string::npos) end_pic += begin_pic == 1;
    if (l.rfind("\\draw", 0) == 0) {
      MON_CHECK(begin_pic == 1 && end_pic == 0, "tikz_inside", tag);
      dr.push_back(read_draw(l));
    }
  }
  const int pre = (fl & 64) ? 1 : 0;
  MON_CHECK(begin_pic == 1 && end_pic == 1 && begin_doc == pre && end_doc == pre, "tikz_frame", tag << " " << begin_pic << end_pic << begin_doc << end_doc);
  // expected drawings, matched greedily by their kind and position
  const double tol = 2e-5 * (d.P.cwiseAbs().maxCoeff() + 1e-300);
  std::vector<char> used(dr.size(), 0);
  auto find = [&](const std::function<bool(const Draw&)>& f, const std::string& what) {
    for (std::size_t i = 0; i < dr.size(); ++i)
      if (!used[i] && f(dr[i])) {
        used[i] = 1;
        return;
      }
    violation("tikz_missing", tag + ": " + what);
    throw CaseAborted{};
  };
  using V2 = Eigen::Vector2d;
  for (int cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m->Entities(cd)) {
      if (!sel[e]) {
        event("not_selected");
        continue;
      }
      event("tikz_entity");
      const std::string idx = std::to_string(m->Index(*e));
      std::vector<V2> v;
      if (cd == 2)
        v.push_back(node_pos(*e));
      else
        for (const Entity* p : e->SubEntities(2 - cd)) v.push_back(node_pos(*p));
      V2 c = V2::Zero();
      for (auto& x : v) c += x / double(v.size());
      const std::string what = "codim " + std::to_string(cd) + " index " + idx;
      // the drawing is the polygon, possibly shrunk towards its centre
      auto shrunk = [&](const Draw& q) {
        if (q.pts.size() != v.size()) return false;
        double num = 0, den = 0;
        for (std::size_t i = 0; i < v.size(); ++i) {
          num += (q.pts[i] - c).dot(v[i] - c);
          den += (v[i] - c).squaredNorm();
        }
        const double l = num / den;
        const double sl = 4 * tol / std::sqrt(den);
        if (!(l > 0.3 - sl && l <= 1 + sl)) return false;
        for (std::size_t i = 0; i < v.size(); ++i)
          if (!((q.pts[i] - c - l * (v[i] - c)).cwiseAbs().maxCoeff() <= tol)) return false;
        return true;
      };
      if (cd == 2)
        find([&](const Draw& q) { return q.pts.size() == 1 && !q.cycle && (q.pts[0] - v[0]).cwiseAbs().maxCoeff() <= tol && q.labels.size() == 1 && q.labels[0].second == ((fl & 8) ? idx : std::string("*")); }, what);
      else if (cd == 1)
        find([&](const Draw& q) {
          const std::vector<std::pair<int, std::string>> w = (fl & 16) ? std::vector<std::pair<int, std::string>>{{-1, idx}} : std::vector<std::pair<int, std::string>>{};
          return shrunk(q) && !q.cycle && q.arrow == ((fl & 32) != 0) && q.labels == w; }, what);
      else if (fl & 1) {
        find([&](const Draw& q) {
          std::vector<std::pair<int, std::string>> w;
          if (fl & 4)
            for (std::size_t k = 0; k < v.size(); ++k) w.push_back({(int)k, std::to_string(k)});
          return shrunk(q) && q.cycle && q.labels == w; }, what);
        if (fl & 2) find([&](const Draw& q) { return q.pts.size() == 1 && !q.cycle && (q.pts[0] - c).cwiseAbs().maxCoeff() <= tol && q.labels.size() == 1 && q.labels[0].second == idx; }, what + " number");
      }
    }
  for (std::size_t i = 0; i < dr.size(); ++i) MON_CHECK(used[i], "tikz_extra", tag << " drawing " << i);
  if (m->NumEntities(2) > 50) event("large_mesh");
  sig(hcomb(d.hash(), fl * 4 + how));
  event("tikz_file");
}

// hierarchies
void levels(Rng& r, u64) {
  Opts o = planar();
  o.max_cells = 8;
  const Desc d = random_desc(r, o);
  lf::refinement::MeshHierarchy h(build(d), std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2));
  std::string tag = describe(d);
  for (int k = r.uni(0, 3); k > 0; --k) tag += "; " + random_step(r, h, 120).text;
  Dir dir;
  const std::string stem = rnd_stem(r);
  lf::refinement::WriteMatlab(h, (dir.p / stem).string());
  std::vector<std::string> want;
  for (unsigned l = 0; l < h.NumLevels(); ++l) {
    want.push_back(stem + "_L" + std::to_string(l) + ".m");
    want.push_back(stem + "_L" + std::to_string(l) + "_pi.m");
  }
  std::sort(want.begin(), want.end());
  MON_REQUIRE(dir.files() == want, "file_name", tag);
  const std::string one = rnd_stem(r), ext = r.coin() ? ".m" : "";
  const unsigned lev = r.uni(0, h.NumLevels() - 1);
  lf::refinement::WriteMatlabLevel(h, lev, (dir.p / "sub" / (one + ext)).string());
  MON_REQUIRE(fs::exists(dir.p / "sub" / (one + ".m")) && dir.files().size() == want.size() + 1, "file_name", tag << " " << one << ext);
  auto parents = [&](unsigned l, const fs::path& p, const std::string& name) {
    Matlab f = read_matlab(p, "PTPAR,EDPAR,CELLPAR");
    MON_CHECK(f.name == name, "matlab_name", tag << " " << f.name);
    for (int cd = 0; cd <= 2; ++cd) {
      const auto m = h.getMesh(l);
      const auto t = table(f, cd == 2 ? "PTPAR" : cd == 1 ? "EDPAR" : "CELLPAR", m->NumEntities(cd), cd == 0 ? 3 : 2, tag);
      const auto& pi = h.ParentInfos(l, cd);
      for (std::size_t i = 0; i < t.size(); ++i) {
        const bool root = pi[i].parent_index == lf::base::glb_idx_t(-1);
        MON_CHECK(t[i][0] == (root ? -1.0 : (double)pi[i].parent_index), "parent_index", tag << " level " << l << " codim " << cd << " index " << i << " is " << t[i][0]);
        MON_CHECK(t[i][1] == (pi[i].child_number == lf::base::glb_idx_t(-1) ? -1.0 : (double)pi[i].child_number), "child_number", tag << " level " << l << " codim " << cd << " index " << i << " is " << t[i][1]);
        if (cd == 0) {
          const auto re = h.RefinementEdges(l)[i];
          MON_CHECK(t[i][2] == (re == lf::base::glb_idx_t(-1) ? -1.0 : (double)re), "refinement_edge", tag << " level " << l << " cell " << i);
        }
      }
    }
    event(l == 0 ? "level_root" : "level_refined");
  };
  for (unsigned l = 0; l < h.NumLevels(); ++l) {
    const std::string b = stem + "_L" + std::to_string(l);
    check_matlab(*h.getMesh(l), dir.p / (b + ".m"), b, 1e-300, tag);
    parents(l, dir.p / (b + "_pi.m"), b + "_pi");
  }
  parents(lev, dir.p / "sub" / (one + ".m"), one);
  sig(hcomb(d.hash(), hash_str(tag)));
}

}  // namespace

void mon::register_all() {
  stream("I04", "matlab", 150, 2500, matlab);
  stream("I04", "csv", 150, 2500, csv);
  stream("I04", "tikz", 250, 4000, tikz);
  stream("I04", "levels", 60, 1000, levels);
  expect("I04", {"matlab_completed", "matlab_given", "stem_m", "csv_completed", "csv_given", "short_name", "tikz_file", "not_selected", "large_mesh", "level_root", "level_refined"});
}
