// I03: VTK output.
#include <lf/io/io.h>

#include "fem.h"

using namespace mon;
using namespace fem;

namespace {
namespace lmu = lf::mesh::utils;
using lf::io::VtkFile;
using lf::io::VtkWriter;

// --- independent reader of legacy VTK files ------------------------------
struct Arr {
  std::string name, type;
  int comp = 1;
  std::vector<double> v;
};
struct Parsed {
  std::string title;
  bool binary = false;
  std::vector<Eigen::Vector3d> pts;
  std::vector<std::vector<long>> cells;
  std::vector<int> types;
  std::vector<Arr> fields, pd, cd;
};
struct Bad {
  std::string why;
};
struct Reader {
  std::string s;
  std::size_t p = 0;
  bool bin = false;
  [[noreturn]] void bad(const std::string& w) const { throw Bad{w + " at byte " + std::to_string(p) + " near '" + s.substr(p, 40) + "'"}; }
  std::string line() {
    const auto e = s.find('\n', p);
    if (e == std::string::npos) bad("line expected");
    std::string r = s.substr(p, e - p);
    p = e + 1;
    return r;
  }
  void skip() {
    while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) ++p;
  }
  bool more() {
    skip();
    return p < s.size();
  }
  std::string tok() {
    skip();
    const auto b = p;
    while (p < s.size() && !(s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) ++p;
    if (b == p) bad("token expected");
    return s.substr(b, p - b);
  }
  void word(const char* w) {
    const std::string t = tok();
    if (t != w) bad(std::string("expected ") + w + " instead of " + t);
  }
  long count() {
    const std::string t = tok();
    for (char c : t)
      if (c < '0' || c > '9') bad("count expected instead of " + t);
    return std::stol(t);
  }
  // the rest of a keyword line must be empty
  void eol() {
    while (p < s.size() && s[p] == ' ') ++p;
    if (p >= s.size() || s[p] != '\n') bad("end of line expected");
    ++p;
  }
  template <class T>
  double raw() {
    if (p + sizeof(T) > s.size()) bad("data cut off");
    unsigned char b[sizeof(T)];
    for (std::size_t i = 0; i < sizeof(T); ++i) b[i] = (unsigned char)s[p + sizeof(T) - 1 - i];
    T x;
    std::memcpy(&x, b, sizeof(T));
    p += sizeof(T);
    return (double)x;
  }
  template <class T>
  double ranged(const std::string& t) {
    std::size_t n = 0;
    double x = 0;
    try {
      if constexpr (std::is_floating_point_v<T>)
        x = std::stod(t, &n);
      else {
        const __int128 y = t[0] == '-' ? (__int128)std::stoll(t, &n) : (__int128)std::stoull(t, &n);
        if (y < (__int128)std::numeric_limits<T>::min() || y > (__int128)std::numeric_limits<T>::max()) bad("value " + t + " does not fit the declared type");
        x = (double)y;
      }
    } catch (const std::exception&) {
      bad("number expected instead of " + t);
    }
    if (n != t.size()) bad("number expected instead of " + t);
    return x;
  }
  double num(const std::string& type) {
    const std::string t = bin ? std::string() : tok();
#define ONE(N, T) \
  if (type == N) return bin ? raw<T>() : ranged<T>(t)
    ONE("char", signed char);
    ONE("unsigned_char", unsigned char);
    ONE("short", short);
    ONE("unsigned_short", unsigned short);
    ONE("int", int);
    ONE("unsigned_int", unsigned);
    ONE("long", long);
    ONE("unsigned_long", unsigned long);
    ONE("float", float);
    ONE("double", double);
#undef ONE
    bad("unknown type " + type);
  }
  std::vector<double> nums(const std::string& type, long n) {
    eol();
    std::vector<double> r;
    for (long i = 0; i < n; ++i) r.push_back(num(type));
    return r;
  }
};

Parsed parse(const std::string& file) {
  std::ifstream in(file, std::ios::binary);
  if (!in) throw Bad{"no file " + file};
  std::stringstream ss;
  ss << in.rdbuf();
  Reader r{ss.str()};
  Parsed q;
  const std::string magic = r.line();
  if (magic.rfind("# vtk DataFile Version ", 0) != 0) r.bad("magic line " + magic);
  q.title = r.line();
  const std::string fmt = r.line();
  if (fmt != "ASCII" && fmt != "BINARY") r.bad("format " + fmt);
  q.binary = r.bin = fmt == "BINARY";
  r.word("DATASET");
  r.word("UNSTRUCTURED_GRID");
  r.word("POINTS");
  const long np = r.count();
  const std::string pt = r.tok();
  if (pt != "float" && pt != "double") r.bad("type of points " + pt);
  const auto x = r.nums(pt, 3 * np);
  for (long i = 0; i < np; ++i) q.pts.emplace_back(x[3 * i], x[3 * i + 1], x[3 * i + 2]);
  r.word("CELLS");
  const long nc = r.count(), tot = r.count();
  r.eol();
  long seen = 0;
  for (long i = 0; i < nc; ++i) {
    const long k = (long)r.num("int");
    if (k < 1 || k > tot) r.bad("size of cell");
    q.cells.emplace_back();
    for (long j = 0; j < k; ++j) {
      const long n = (long)r.num("int");
      if (n < 0 || n >= np) r.bad("point of cell");
      q.cells.back().push_back(n);
    }
    seen += k + 1;
  }
  if (seen != tot) r.bad("announced size of CELLS " + std::to_string(tot) + " instead of " + std::to_string(seen));
  r.word("CELL_TYPES");
  if (r.count() != nc) r.bad("number of cell types");
  for (double t : r.nums("int", nc)) q.types.push_back((int)t);
  int section = 0;
  while (r.more()) {
    const std::string k = r.tok();
    if (k == "FIELD" && section == 0) {
      r.tok();
      const long n = r.count();
      r.eol();
      for (long i = 0; i < n; ++i) {
        Arr a;
        a.name = r.tok();
        a.comp = (int)r.count();
        const long m = r.count();
        a.type = r.tok();
        a.v = r.nums(a.type, m * a.comp);
        q.fields.push_back(a);
      }
    } else if (k == "POINT_DATA" || k == "CELL_DATA") {
      const int now = k[0] == 'P' ? 1 : 2;
      if (now <= section) r.bad("repeated section");
      section = now;
      if (r.count() != (now == 1 ? np : nc)) r.bad("size of " + k);
      r.eol();
    } else if (section && (k == "SCALARS" || k == "VECTORS")) {
      Arr a;
      a.name = r.tok();
      a.type = r.tok();
      a.comp = k[0] == 'S' ? 1 : 3;
      if (k[0] == 'S') {
        r.word("1");
        r.eol();
        r.word("LOOKUP_TABLE");
        r.word("default");
      }
      a.v = r.nums(a.type, (section == 1 ? np : nc) * a.comp);
      (section == 1 ? q.pd : q.cd).push_back(a);
    } else
      r.bad("unexpected " + k);
  }
  return q;
}

// --- node positions of Lagrange cells in VTK's order ---------------------
// (n1,n2) on the grid of width 1/o
using IJ = std::array<int, 2>;
void tri_nodes(int o, IJ off, std::vector<IJ>& out) {
  if (o < 0) return;
  auto put = [&](int i, int j) { out.push_back({off[0] + i, off[1] + j}); };
  put(0, 0);
  if (o == 0) return;
  put(o, 0);
  put(0, o);
  for (int i = 1; i < o; ++i) put(i, 0);
  for (int i = 1; i < o; ++i) put(o - i, i);
  for (int i = 1; i < o; ++i) put(0, o - i);
  tri_nodes(o - 3, {off[0] + 1, off[1] + 1}, out);
}
std::vector<IJ> vtk_nodes(int nc, int o) {
  std::vector<IJ> r;
  if (nc == 2) {
    r = {{0, 0}, {o, 0}};
    for (int i = 1; i < o; ++i) r.push_back({i, 0});
  } else if (nc == 3)
    tri_nodes(o, {0, 0}, r);
  else {
    r = {{0, 0}, {o, 0}, {o, o}, {0, o}};
    for (int i = 1; i < o; ++i) r.push_back({i, 0});
    for (int i = 1; i < o; ++i) r.push_back({o, i});
    for (int i = 1; i < o; ++i) r.push_back({i, o});
    for (int i = 1; i < o; ++i) r.push_back({0, i});
    for (int j = 1; j < o; ++j)
      for (int i = 1; i < o; ++i) r.push_back({i, j});
  }
  return r;
}

// --- expected data -------------------------------------------------------
struct Want {
  Arr a;
  double tol = 0;    // absolute error allowed for the computation
  bool half = false;  // value was rounded to an integer
};
template <class T>
const char* type_name() {
  if (std::is_same_v<T, char>) return "char";
  if (std::is_same_v<T, unsigned char>) return "unsigned_char";
  if (std::is_same_v<T, short>) return "short";
  if (std::is_same_v<T, unsigned short>) return "unsigned_short";
  if (std::is_same_v<T, int>) return "int";
  if (std::is_same_v<T, unsigned>) return "unsigned_int";
  if (std::is_same_v<T, long>) return "long";
  if (std::is_same_v<T, unsigned long>) return "unsigned_long";
  if (std::is_same_v<T, float>) return "float";
  return "double";
}
template <class T>
T rnd_value(Rng& r) {
  if constexpr (std::is_floating_point_v<T>) {
    const int k = r.uni(0, 5);
    if (k == 0) return T(r.uni(-3, 3));
    if (k == 1) return T(r.real(-1, 1) * std::pow(10.0, r.uni(-20, 20)));
    return T(r.real(-2, 2));
  } else {
    const int k = r.uni(0, 4);
    if (k == 0) return std::numeric_limits<T>::max();
    if (k == 1) return std::numeric_limits<T>::min();
    return static_cast<T>(r.next());
  }
}

void compare(const std::vector<Arr>& got, const std::vector<Want>& want, bool text, const std::string& tag, const char* what) {
  MON_REQUIRE(got.size() == want.size(), "data_sets", tag << " " << what << ": " << got.size() << " data sets instead of " << want.size());
  for (std::size_t i = 0; i < got.size(); ++i) {
    const Arr &g = got[i], &w = want[i].a;
    const std::string t = tag + " " + what + " '" + w.name + "' (" + w.type + ")";
    MON_REQUIRE(g.name == w.name && g.type == w.type && g.comp == w.comp && g.v.size() == w.v.size(), "data_head", t << " found '" << g.name << "' " << g.type << " " << g.comp << " " << g.v.size() << " expected " << w.comp << " " << w.v.size());
    const bool fl = w.type == "float", real = fl || w.type == "double";
    const double rel = !real ? 0 : fl ? (text ? 1e-6 : 0) : (text ? 1e-14 : 0);
    for (std::size_t k = 0; k < g.v.size(); ++k) {
      const double tol = want[i].tol + (fl && want[i].tol > 0 ? 1.3e-7 * std::abs(w.v[k]) : 0) + rel * std::abs(w.v[k]) + (text && real ? 1e-290 : 0);
      MON_CHECK(std::abs(g.v[k] - w.v[k]) <= tol + (want[i].half ? 0.5 : 0), "data_value", t << " entry " << k << " is " << g.v[k] << " expected " << w.v[k]);
    }
    event(std::string("type_") + w.type + (w.comp > 1 ? "_vector" : "_scalar"));
  }
}

// --- data attached to meshes ---------------------------------------------
using Mesh = lf::mesh::Mesh;
template <class T>
class Partial : public lmu::MeshDataSet<T> {
 public:
  std::map<const Entity*, T> v;
  const T& operator()(const Entity& e) const override {
    if (!v.count(&e)) throw std::logic_error("value requested where none is defined");
    return v.at(&e);
  }
  bool DefinedOn(const Entity& e) const override { return v.count(&e) > 0; }
};

struct Ctx {
  const Desc& d;
  std::shared_ptr<const Mesh> m;
  int codim, order;
  bool sheet;  // planar
  // for every point of the file: an entity and the position on it
  std::vector<std::pair<const Entity*, VectorXd>> at;
  std::vector<VectorXd> x;  // its true coordinates
  double diam, big;
};

// one data set: how it is added to the writer and what must come out
struct Job {
  std::function<void(VtkWriter&)> add;
  Want want;
  int where;  // 0 global 1 point 2 cell
};

std::string rnd_name(Rng& r, int k) {
  static const std::string chars = "abcXYZ019_-.:/%$()";
  std::string s = "d" + std::to_string(k);
  for (int i = r.uni(0, 6); i > 0; --i) s += chars[r.uni(0, chars.size() - 1)];
  return s;
}

template <class T>
Job scalar_set(Rng& r, const Ctx& c, const std::string& name, int where) {
  auto ds = std::make_shared<Partial<T>>();
  const bool dflt = r.coin(0.3);
  const T undef = dflt ? T(0) : rnd_value<T>(r);
  const int mode = r.uni(0, 2);
  Job j;
  j.where = where;
  j.want.a = {name, type_name<T>(), 1, {}};
  const int cd = where == 1 ? 2 : c.codim;
  j.want.a.v.assign(where == 1 ? c.at.size() : c.m->NumEntities(cd), 0);
  for (const Entity* e : c.m->Entities(cd)) {
    double& w = j.want.a.v[c.m->Index(*e)];
    if (mode == 0 || (mode == 1 && r.coin())) {
      const T v = rnd_value<T>(r);
      ds->v[e] = v;
      w = (double)v;
    } else {
      w = (double)undef;
      event("undefined_value");
    }
  }
  j.add = [ds, name, dflt, undef, where](VtkWriter& w) {
    if (where == 1)
      dflt ? w.WritePointData(name, *ds) : w.WritePointData(name, *ds, undef);
    else
      dflt ? w.WriteCellData(name, *ds) : w.WriteCellData(name, *ds, undef);
  };
  return j;
}

template <class V>
Job vector_set(Rng& r, const Ctx& c, const std::string& name, int where) {
  using T = typename V::Scalar;
  constexpr int R = V::RowsAtCompileTime;
  auto ds = std::make_shared<Partial<V>>();
  const bool dflt = r.coin(0.3);
  auto rnd = [&](int lo) {
    V v(R == Eigen::Dynamic ? r.uni(lo, 5) : R);
    for (int i = 0; i < v.size(); ++i) v(i) = rnd_value<T>(r);
    return v;
  };
  const V undef = rnd(1);
  const int mode = r.uni(0, 2);
  Job j;
  j.where = where;
  j.want.a = {name, type_name<T>(), 3, {}};
  const int cd = where == 1 ? 2 : c.codim;
  j.want.a.v.assign(3 * (where == 1 ? c.at.size() : c.m->NumEntities(cd)), 0);
  for (const Entity* e : c.m->Entities(cd)) {
    double* w = &j.want.a.v[3 * c.m->Index(*e)];
    V v = undef;
    bool def = false;
    if (mode == 0 || (mode == 1 && r.coin())) {
      v = rnd(1);
      ds->v[e] = v;
      def = true;
    } else
      event("undefined_value");
    for (int i = 0; i < 3; ++i) w[i] = i < v.size() && (def || !dflt) ? (double)v(i) : 0.0;
    if (def && v.size() > 3) event("long_vector");
  }
  j.add = [ds, name, dflt, undef, where](VtkWriter& w) {
    if (where == 1)
      dflt ? w.WritePointData(name, *ds) : w.WritePointData(name, *ds, undef);
    else
      dflt ? w.WriteCellData(name, *ds) : w.WriteCellData(name, *ds, undef);
  };
  return j;
}

// a smooth function of the position with values of size around one
struct Smooth {
  VectorXd a;
  double ph, diam;
  double operator()(const VectorXd& x) const { return std::sin(a.head(x.size()).dot(x) / diam + ph); }
};
Smooth rnd_smooth(Rng& r, const Ctx& c) {
  VectorXd a(3);
  for (int i = 0; i < 3; ++i) a(i) = r.real(-1.5, 1.5);
  return {a, r.real(0, 6), c.diam};
}

template <class T>
struct Value {
  static T make(const std::array<Smooth, 3>& f, const VectorXd& x) {
    if constexpr (std::is_floating_point_v<T>)
      return static_cast<T>(f[0](x));
    else if constexpr (std::is_same_v<T, int>)
      return (int)std::lround(1e6 * f[0](x));
    else if constexpr (std::is_same_v<T, char>)
      return (char)std::lround(120 * f[0](x));
    else if constexpr (std::is_same_v<T, unsigned char>)
      return (unsigned char)std::lround(127 + 120 * f[0](x));
    else if constexpr (std::is_same_v<T, unsigned>)
      return (unsigned)std::lround(2.2e9 + 2e9 * f[0](x));
    else {
      T v(T::RowsAtCompileTime == Eigen::Dynamic ? 3 : (int)T::RowsAtCompileTime);
      for (int i = 0; i < v.size(); ++i) v(i) = static_cast<typename T::Scalar>(f[i](x));
      return v;
    }
  }
  // before rounding
  static double exact(const std::array<Smooth, 3>& f, int i, const VectorXd& x) {
    if (std::is_same_v<T, int>) return 1e6 * f[0](x);
    if (std::is_same_v<T, char>) return 120 * f[0](x);
    if (std::is_same_v<T, unsigned char>) return 127 + 120 * f[0](x);
    if (std::is_same_v<T, unsigned>) return 2.2e9 + 2e9 * f[0](x);
    return f[i](x);
  }
};

template <class T>
Job function_set(Rng& r, const Ctx& c, const std::string& name, int where) {
  const std::array<Smooth, 3> f{rnd_smooth(r, c), rnd_smooth(r, c), rnd_smooth(r, c)};
  Job j;
  j.where = where;
  constexpr bool vec = !std::is_arithmetic_v<T>;
  std::string ty;
  int rows = 1;
  if constexpr (vec) {
    ty = type_name<typename T::Scalar>();
    rows = T::RowsAtCompileTime == Eigen::Dynamic ? 3 : (int)T::RowsAtCompileTime;
  } else
    ty = type_name<T>();
  j.want.a = {name, ty, vec ? 3 : 1, {}};
  const bool integer = std::is_integral_v<T>;
  j.want.half = integer;
  j.want.tol = 1e-11 * (1 + c.big / c.diam) * (std::is_same_v<T, unsigned> ? 2e9 : std::is_same_v<T, int> ? 1e6 : 100);
  auto put = [&](const VectorXd& x) {
    for (int i = 0; i < j.want.a.comp; ++i) j.want.a.v.push_back(i < rows ? Value<T>::exact(f, i, x) : 0.0);
  };
  if (where == 1)
    for (const auto& x : c.x) put(x);
  else
    for (std::size_t i = 0; i < c.m->NumEntities(c.codim); ++i) {
      const Entity* e = c.m->EntityByIndex(c.codim, i);
      const VectorXd ce = e->RefEl().NodeCoords().rowwise().mean();
      put(e->Geometry()->Global(ce));
    }
  j.add = [f, name, where](VtkWriter& w) {
    const lmu::MeshFunctionGlobal g([&f](const VectorXd& x) -> T { return Value<T>::make(f, x); });
    where == 1 ? w.WritePointData(name, g) : w.WriteCellData(name, g);
  };
  event(where == 1 ? "point_function" : "cell_function");
  return j;
}

// finite element function, and its gradient as cell data
Job fe_set(Rng& r, const Ctx& c, const std::string& name, int where) {
  auto sp = std::make_shared<fem::Space<double>>(make_space<double>(r, c.m, r.uni(1, 4)));
  const VectorXd co = rand_vec<double>(r, sp->sp->LocGlobMap().NumDofs());
  Job j;
  j.where = where;
  j.want.tol = 1e-10;
  j.want.a = {name, "double", 1, {}};
  const lf::fe::MeshFunctionFE u(sp->sp, co);
  if (where == 1) {
    for (auto& [e, x] : c.at) j.want.a.v.push_back(u(*e, MatrixXd(x))[0]);
  } else
    for (std::size_t i = 0; i < c.m->NumEntities(c.codim); ++i) {
      const Entity* e = c.m->EntityByIndex(c.codim, i);
      j.want.a.v.push_back(u(*e, MatrixXd(e->RefEl().NodeCoords().rowwise().mean()))[0]);
    }
  j.add = [sp, co, name, where](VtkWriter& w) {
    const lf::fe::MeshFunctionFE u(sp->sp, co);
    where == 1 ? w.WritePointData(name, u) : w.WriteCellData(name, u);
  };
  event("fe_function");
  return j;
}
// value known only cell by cell (discontinuous)
Job cellwise_set(Rng& r, const Ctx& c, const std::string& name) {
  Job j;
  j.where = 2;
  j.want.tol = 1e-13;
  j.want.a = {name, "double", 1, {}};
  const double s = r.real(0.5, 2);
  auto f = [m = c.m, s](const Entity& e, const VectorXd& x) {
    double v = s * (m->Index(e) % 17);
    for (int i = 0; i < x.size(); ++i) v += (i + 1) * x(i);
    return v;
  };
  for (std::size_t i = 0; i < c.m->NumEntities(c.codim); ++i) {
    const Entity* e = c.m->EntityByIndex(c.codim, i);
    j.want.a.v.push_back(f(*e, e->RefEl().NodeCoords().rowwise().mean()));
  }
  struct MF {
    decltype(f) fn;
    std::vector<double> operator()(const Entity& e, const MatrixXd& x) const {
      std::vector<double> v;
      for (int k = 0; k < x.cols(); ++k) v.push_back(fn(e, x.col(k)));
      return v;
    }
  };
  j.add = [f, name](VtkWriter& w) { w.WriteCellData(name, MF{f}); };
  event("cellwise_function");
  return j;
}
template <class T>
Job global_set(Rng& r, const std::string& name) {
  Job j;
  j.where = 0;
  std::vector<T> v(r.coin(0.2) ? 0 : r.uni(1, 7));
  if (v.empty()) event("empty_global");
  for (auto& x : v) x = rnd_value<T>(r);
  j.want.a = {name, type_name<T>(), 1, std::vector<double>(v.begin(), v.end())};
  j.add = [v, name](VtkWriter& w) { w.WriteGlobalData(name, v); };
  return j;
}

Job random_job(Rng& r, const Ctx& c, int k) {
  const std::string n = rnd_name(r, k);
  const int where = r.uni(0, 4) == 0 ? 0 : r.coin() ? 1 : 2;
  if (where == 0) switch (r.uni(0, 2)) {
      case 0: return global_set<int>(r, n);
      case 1: return global_set<float>(r, n);
      default: return global_set<double>(r, n);
    }
  if (r.coin(0.55) && (where == 2 || c.order == 1)) switch (r.uni(0, 11)) {
      case 0: return scalar_set<unsigned char>(r, c, n, where);
      case 1: return scalar_set<char>(r, c, n, where);
      case 2: return scalar_set<unsigned>(r, c, n, where);
      case 3: return scalar_set<int>(r, c, n, where);
      case 4: return scalar_set<float>(r, c, n, where);
      case 5: return scalar_set<double>(r, c, n, where);
      case 6: return vector_set<Eigen::Vector2d>(r, c, n, where);
      case 7: return vector_set<Eigen::Vector2f>(r, c, n, where);
      case 8: return vector_set<Eigen::Vector3d>(r, c, n, where);
      case 9: return vector_set<Eigen::Vector3f>(r, c, n, where);
      case 10: return vector_set<Eigen::VectorXd>(r, c, n, where);
      default: return vector_set<Eigen::VectorXf>(r, c, n, where);
    }
  switch (r.uni(0, where == 2 ? 15 : 13)) {
    case 0: return function_set<unsigned char>(r, c, n, where);
    case 1: return function_set<char>(r, c, n, where);
    case 2: return function_set<unsigned>(r, c, n, where);
    case 3: return function_set<int>(r, c, n, where);
    case 4: return function_set<float>(r, c, n, where);
    case 5: return function_set<double>(r, c, n, where);
    case 6: return function_set<Eigen::Vector2d>(r, c, n, where);
    case 7: return function_set<Eigen::Vector2f>(r, c, n, where);
    case 8: return function_set<Eigen::Vector3d>(r, c, n, where);
    case 9: return function_set<Eigen::Vector3f>(r, c, n, where);
    case 10: return function_set<Eigen::VectorXd>(r, c, n, where);
    case 11: return function_set<Eigen::VectorXf>(r, c, n, where);
    case 12:
    case 13: return fe_set(r, c, n, where);
    default: return cellwise_set(r, c, n);
  }
}

Parsed load(const std::string& file, const std::string& tag) {
  event("valid_file");
  try {
    return parse(file);
  } catch (const Bad& b) {
    violation("valid_file", tag + ": " + b.why);
    throw CaseAborted{};
  }
}

void writer(Rng& r, u64) {
  gen::Opts o;
  o.max_cells = thorough() ? 40 : 14;
  const Desc d = gen::random_desc(r, o);
  const std::shared_ptr<const Mesh> m = gen::build(d);
  const int codim = r.coin(0.25) ? 1 : 0;
  const int order = r.coin(0.3) ? 1 : r.uni(2, 10);
  Ctx c{d, m, codim, order, d.dw == 2, {}, {}, d.diam(), d.P.cwiseAbs().maxCoeff() + d.diam()};
  const std::string tag = "order " + std::to_string(order) + " codim " + std::to_string(codim) + " " + gen::describe(d);
  const std::string file = env().scratch + "/w.vtk";

  // where the points are
  Parsed first;
  {
    VtkWriter w(m, file, codim, order);
    w.setBinary(true);
  }
  first = load(file, tag);
  MON_CHECK(first.binary, "format", tag);
  const std::size_t ncell = m->NumEntities(codim);
  MON_REQUIRE(first.cells.size() == ncell, "cells", tag << " " << first.cells.size() << " cells instead of " << ncell);
  std::size_t np = m->NumEntities(2) + (order - 1) * m->NumEntities(1);
  if (codim == 0) np += (order - 1) * (order - 2) / 2 * m->NumEntities(lf::base::RefEl::kTria()) + (order - 1) * (order - 1) * m->NumEntities(lf::base::RefEl::kQuad());
  MON_REQUIRE(first.pts.size() == np, "points", tag << " " << first.pts.size() << " points instead of " << np);
  c.at.assign(np, {nullptr, VectorXd()});
  const double ftol = 3e-7 * c.big;
  // identity of a point: node, or edge and step from its first end, or cell
  std::map<std::pair<const Entity*, int>, long> owner;
  std::map<long, std::pair<const Entity*, int>> back;
  auto bind = [&](const Entity* e, int k, long p) {
    const auto a = owner.emplace(std::make_pair(e, k), p);
    const auto b = back.emplace(p, std::make_pair(e, k));
    MON_CHECK(a.first->second == p && b.first->second == std::make_pair(e, k), "shared_points", tag << " point " << p << " of entity " << *e << " place " << k);
  };
  for (std::size_t i = 0; i < ncell; ++i) {
    const Entity* e = m->EntityByIndex(codim, i);
    const int nc = gen::ncorners(e->RefEl());
    const auto& cell = first.cells[i];
    const int type = order == 1 ? (nc == 2 ? 3 : nc == 3 ? 5 : 9) : (nc == 2 ? 68 : nc == 3 ? 69 : 70);
    MON_CHECK(first.types[i] == type, "cell_type", tag << " cell " << i << " type " << first.types[i]);
    const auto nodes = vtk_nodes(nc, order);
    MON_REQUIRE(cell.size() == nodes.size(), "cell_size", tag << " cell " << i << " has " << cell.size() << " points instead of " << nodes.size());
    MatrixXd ref(codim == 1 ? 1 : 2, nodes.size());
    for (std::size_t k = 0; k < nodes.size(); ++k)
      for (int a = 0; a < ref.rows(); ++a) ref(a, k) = double(nodes[k][a]) / order;
    const MatrixXd x = e->Geometry()->Global(ref);
    for (std::size_t k = 0; k < nodes.size(); ++k) {
      const long p = cell[k];
      Eigen::Vector3d y = Eigen::Vector3d::Zero();
      y.head(d.dw) = x.col(k);
      MON_CHECK((first.pts[p] - y).cwiseAbs().maxCoeff() <= ftol, "position", tag << " cell " << i << " point " << k << " (" << p << ") at " << mstr(first.pts[p]) << " expected " << mstr(y));
      c.at[p] = {e, ref.col(k)};
      if ((int)k < nc) {
        const Entity* n = e->SubEntities(2 - codim)[k];
        MON_CHECK((long)m->Index(*n) == p, "node_index", tag << " cell " << i << " corner " << k << " is point " << p);
        bind(n, 0, p);
        continue;
      }
      const int s = ((int)k - nc) / std::max(1, order - 1);
      if (codim == 1)
        bind(e, nodes[k][0], p);
      else if (s < nc) {
        const Entity* ed = e->SubEntities(1)[s];
        const bool neg = e->RelativeOrientations()[s] == lf::mesh::Orientation::negative;
        // step along the side in the cell's direction
        int st = s == 0 ? nodes[k][0] : s == 1 ? nodes[k][1] : nc == 3 ? order - nodes[k][1] : s == 2 ? order - nodes[k][0] : order - nodes[k][1];
        bind(ed, neg ? order - st : st, p);
        if (neg) event("reversed_side");
      } else
        bind(e, (int)k, p);
    }
    event(nc == 2 ? "segment" : nc == 3 ? "triangle" : "quadrilateral");
  }
  if (codim == 1)
    for (const Entity* p : m->Entities(2)) bind(p, 0, m->Index(*p));
  MON_CHECK(back.size() == np, "unused_points", tag << " " << back.size() << " of " << np << " points used");
  c.x.resize(np);
  for (std::size_t p = 0; p < np; ++p) {
    if (c.at[p].first == nullptr) throw CaseAborted{};
    c.x[p] = c.at[p].first->Geometry()->Global(c.at[p].second);
  }
  event(order == 1 ? "linear" : order < 6 ? "medium_order" : "high_order");
  // data in both modes
  std::vector<Job> jobs;
  for (int k = r.uni(0, 7); k > 0; --k) jobs.push_back(random_job(r, c, k));
  for (int mode = 0; mode < 2; ++mode) {
    const std::string t = tag + (mode == 0 ? " text" : " binary");
    if (r.coin(0.5)) std::remove(file.c_str());
    {
      VtkWriter w(m, file, codim, order);
      if (mode == 1 || r.coin()) w.setBinary(mode == 1);
      for (auto& j : jobs) {
        j.add(w);
        if (r.coin(0.1)) {
          bool refused = false;
          try {
            j.add(w);
          } catch (const lf::base::LfException&) {
            refused = true;
          }
          MON_CHECK(refused, "duplicate_name", t << " " << j.want.a.name);
        }
      }
      if (r.coin(0.2)) {
        must_fail("name_with_space", t, [&] { w.WriteGlobalData("a b", std::vector<int>{1}); });
      }
    }
    const Parsed q = load(file, t);
    MON_CHECK(q.binary == (mode == 1), "format", t);
    MON_REQUIRE(q.cells == first.cells && q.types == first.types && q.pts.size() == np, "same_mesh", t);
    for (std::size_t p = 0; p < np; ++p) MON_CHECK((q.pts[p] - first.pts[p]).cwiseAbs().maxCoeff() <= (mode == 1 ? 0 : 1e-6) * first.pts[p].cwiseAbs().maxCoeff(), "same_points", t << " point " << p << " " << mstr(q.pts[p]) << " instead of " << mstr(first.pts[p]));
    std::vector<Want> w[3];
    for (auto& j : jobs) w[j.where].push_back(j.want);
    compare(q.fields, w[0], mode == 0, t, "global");
    compare(q.pd, w[1], mode == 0, t, "point");
    compare(q.cd, w[2], mode == 0, t, "cell");
    event(mode == 0 ? "text_file" : "binary_file");
  }
  sig(hcomb(hcomb(d.hash(), order), codim));
}

// files put together by hand
template <class T>
void attribute(Rng& r, int k, std::size_t n, VtkFile::Attributes& out, std::vector<Want>& want) {
  std::vector<T> v(n);
  for (auto& x : v) x = rnd_value<T>(r);
  Want w;
  w.a = {rnd_name(r, k), type_name<T>(), 1, std::vector<double>(v.begin(), v.end())};
  out.push_back(VtkFile::ScalarData<T>(w.a.name, v));
  want.push_back(w);
}
template <class T>
void vattribute(Rng& r, int k, std::size_t n, VtkFile::Attributes& out, std::vector<Want>& want) {
  std::vector<Eigen::Matrix<T, 3, 1>> v(n);
  Want w;
  w.a = {rnd_name(r, k), type_name<T>(), 3, {}};
  for (auto& x : v)
    for (int i = 0; i < 3; ++i) {
      x(i) = rnd_value<T>(r);
      w.a.v.push_back(x(i));
    }
  out.push_back(VtkFile::VectorData<T>(w.a.name, v));
  want.push_back(w);
}

void raw_file(Rng& r, u64) {
  VtkFile f;
  for (int i = r.coin(0.2) ? 256 : r.uni(0, 80); i > 0; --i) f.header += (char)r.uni(32, 126);
  const int np = r.uni(1, 30), nc = r.uni(0, 12);
  for (int i = 0; i < np; ++i) f.unstructured_grid.points.push_back(Eigen::Vector3f(rnd_value<float>(r), rnd_value<float>(r), rnd_value<float>(r)));
  for (int i = 0; i < nc; ++i) {
    f.unstructured_grid.cells.emplace_back();
    for (int k = r.uni(1, 9); k > 0; --k) f.unstructured_grid.cells.back().push_back(r.uni(0, np - 1));
    f.unstructured_grid.cell_types.push_back((VtkFile::CellType)r.pick(std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 21, 22, 23, 24, 68, 69, 70, 74}));
  }
  std::vector<Want> want[3];
  for (int k = r.uni(0, 6); k > 0; --k) {
    const int where = r.uni(0, 2);
    if (where == 0) {
      auto field = [&](auto zero) {
        using T = decltype(zero);
        std::vector<T> v(r.uni(0, 5));
        for (auto& x : v) x = rnd_value<T>(r);
        Want w;
        w.a = {rnd_name(r, k), type_name<T>(), 1, std::vector<double>(v.begin(), v.end())};
        f.field_data.push_back(VtkFile::FieldDataArray<T>(w.a.name, v));
        want[0].push_back(w);
      };
      switch (r.uni(0, 2)) {
        case 0: field(int()); break;
        case 1: field(float()); break;
        default: field(double());
      }
      continue;
    }
    auto& out = where == 1 ? f.point_data : f.cell_data;
    const std::size_t n = where == 1 ? np : nc;
    switch (r.uni(0, 11)) {
      case 0: attribute<char>(r, k, n, out, want[where]); break;
      case 1: attribute<unsigned char>(r, k, n, out, want[where]); break;
      case 2: attribute<short>(r, k, n, out, want[where]); break;
      case 3: attribute<unsigned short>(r, k, n, out, want[where]); break;
      case 4: attribute<int>(r, k, n, out, want[where]); break;
      case 5: attribute<unsigned>(r, k, n, out, want[where]); break;
      case 6: attribute<long>(r, k, n, out, want[where]); break;
      case 7: attribute<unsigned long>(r, k, n, out, want[where]); break;
      case 8: attribute<float>(r, k, n, out, want[where]); break;
      case 9: attribute<double>(r, k, n, out, want[where]); break;
      case 10: vattribute<float>(r, k, n, out, want[where]); break;
      default: vattribute<double>(r, k, n, out, want[where]); break;
    }
  }
  const std::string file = env().scratch + "/r.vtk";
  for (int mode = 0; mode < 2; ++mode) {
    const std::string t = std::string("raw file ") + (mode ? "binary" : "text") + " points " + std::to_string(np) + " cells " + std::to_string(nc);
    f.format = mode ? VtkFile::Format::BINARY : VtkFile::Format::ASCII;
    lf::io::WriteToFile(f, file);
    const Parsed q = load(file, t);
    MON_CHECK(q.title == f.header, "title", t << " '" << q.title << "' instead of '" << f.header << "'");
    MON_REQUIRE((int)q.pts.size() == np && (int)q.cells.size() == nc, "raw_sizes", t);
    for (int i = 0; i < np; ++i)
      for (int a = 0; a < 3; ++a) {
        const double w = f.unstructured_grid.points[i](a);
        MON_CHECK(std::abs(q.pts[i](a) - w) <= (mode ? 0 : 1e-6 * std::abs(w) + 1e-44), "raw_point", t << " " << q.pts[i](a) << " instead of " << w);
      }
    for (int i = 0; i < nc; ++i) {
      MON_CHECK(q.cells[i] == std::vector<long>(f.unstructured_grid.cells[i].begin(), f.unstructured_grid.cells[i].end()), "raw_cell", t << " cell " << i);
      MON_CHECK(q.types[i] == (int)f.unstructured_grid.cell_types[i], "raw_type", t << " cell " << i);
    }
    compare(q.fields, want[0], mode == 0, t, "global");
    compare(q.pd, want[1], mode == 0, t, "point");
    compare(q.cd, want[2], mode == 0, t, "cell");
  }
  // inconsistent files are refused
  VtkFile g = f;
  std::string what;
  switch (r.uni(0, 3)) {
    case 0: g.header.assign(r.uni(257, 400), 'x'); what = "long header"; break;
    case 1: g.header = "a\nb"; what = "newline in header"; break;
    case 2: g.unstructured_grid.cell_types.push_back(VtkFile::CellType::VTK_LINE); what = "too many types"; break;
    default: g.point_data.push_back(VtkFile::ScalarData<int>("zz", std::vector<int>(np + 1))); what = "too much point data";
  }
  must_fail("refused_file", what, [&] { lf::io::WriteToFile(g, file); });
  sig(hcomb(hcomb(np, nc), hcomb(f.point_data.size() * 100 + f.cell_data.size() * 10 + f.field_data.size(), hash_str(f.header))));
  event("raw_file");
}

}  // namespace

void mon::register_all() {
  stream("I03", "writer", 700, 9000, writer);
  stream("I03", "raw_file", 500, 9000, raw_file);
  expect("I03", {"text_file", "binary_file", "segment", "triangle", "quadrilateral", "linear", "medium_order", "high_order", "reversed_side", "point_function", "cell_function", "cellwise_function", "fe_function", "undefined_value", "empty_global", "long_vector", "duplicate_name", "name_with_space", "raw_file", "type_char_scalar", "type_unsigned_char_scalar", "type_unsigned_int_scalar", "type_float_vector", "type_double_vector", "type_long_scalar"});
}
