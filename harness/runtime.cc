// Monitoring runtime: main(), case loop, replacement of the assertion sink.
#include "common.h"

#include <execinfo.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <mutex>
#include <unordered_set>

namespace mon {
namespace {
struct Viol {
  std::string key, stream, msg;
  u64 index;
};
struct State {
  std::map<std::string, u64> events;
  std::vector<Viol> viols;
  std::map<std::string, u64> viol_count;
  std::unordered_set<u64> sigs;       // distinct states observed
  std::unordered_set<u64> case_sigs;  // distinct non-trivial cases
  u64 case_acc = 0;
  bool case_has = false;
  std::vector<std::string> samples;
  std::set<std::string> expected;
  std::map<std::string, double> notes;
  std::map<std::string, u64> cases, discards;
  std::map<std::string, u64> discard_why;
  std::vector<std::pair<std::string, Stream>> streams;
  std::string cur_stream;
  u64 cur_index = 0;
  std::mutex mtx;
};
State& S() {
  static State* s = new State;  // never destroyed: usable in handlers
  return *s;
}
char* crumb_path = nullptr;
int crumb_fd = -1;

void write_crumb(const char* what) {
  if (crumb_fd < 0) return;
  char buf[512];
  const int n =
      std::snprintf(buf, sizeof buf, "%s %llu %s\n", S().cur_stream.c_str(),
                    (unsigned long long)S().cur_index, what);
  (void)!::pwrite(crumb_fd, buf, n, 0);
  (void)!::ftruncate(crumb_fd, n);
}
void on_alarm(int) {
  write_crumb("timeout");
  static const char m[] = "MON: case exceeded its CPU time limit\n";
  (void)!::write(2, m, sizeof m - 1);
  _exit(97);
}
void arm(int sec) {
  struct itimerval it;
  std::memset(&it, 0, sizeof it);
  it.it_value.tv_sec = sec;
  ::setitimer(ITIMER_PROF, &it, nullptr);
}
std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}
std::string base_of(const std::string& f) {
  const auto p = f.rfind('/');
  return p == std::string::npos ? f : f.substr(p + 1);
}
}  // namespace

u64 hash_str(const std::string& s) {
  u64 h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return mix(h);
}
Env& env() {
  static Env* e = new Env;
  return *e;
}
namespace {
thread_local ThreadLog* tl = nullptr;
}
ThreadLog::ThreadLog() { tl = this; }
ThreadLog::~ThreadLog() { stop(); }
void ThreadLog::stop() {
  if (tl == this) tl = nullptr;
}
void ThreadLog::publish() {
  for (auto& [k, n] : events) event(k, n);
  for (auto& [k, m] : viols) violation(k, m);
}
void event(const std::string& key, u64 n) {
  if (tl) {
    tl->events[key] += n;
    return;
  }
  std::lock_guard<std::mutex> g(S().mtx);
  S().events[key] += n;
}
void violation(const std::string& key, const std::string& msg) {
  if (tl) {
    tl->viols.push_back({key, msg});
    return;
  }
  std::lock_guard<std::mutex> g(S().mtx);
  const u64 c = ++S().viol_count[key];
  if (c <= 3) {
    S().viols.push_back({key, S().cur_stream, msg.substr(0, 3000), S().cur_index});
    if (env().replay) {
      std::cerr << "MON VIOLATION key=" << key << " case=" << S().cur_stream
                << ":" << S().cur_index << "\n   " << msg << std::endl;
    }
  }
}
void sig(u64 h) {
  std::lock_guard<std::mutex> g(S().mtx);
  if (S().sigs.size() < 200000) S().sigs.insert(h);
  S().case_acc = hcomb(S().case_acc, h);
  S().case_has = true;
}
void sample(const std::string& s) {
  std::lock_guard<std::mutex> g(S().mtx);
  if (S().samples.size() < 6) S().samples.push_back(s.substr(0, 600));
}
void expect(const std::string& prop, std::initializer_list<const char*> keys) {
  if (env().prop == prop) expect(keys);
}
void expect(std::initializer_list<const char*> keys) {
  for (auto* k : keys) S().expected.insert(k);
}
void note(const std::string& key, double v) {
  std::lock_guard<std::mutex> g(S().mtx);
  auto it = S().notes.find(key);
  if (it == S().notes.end()) {
    S().notes[key] = v;
  } else {
    it->second = std::max(it->second, v);
  }
}
void stream(const std::string& prop, const std::string& name, u64 quick_cases,
            u64 thorough_cases, CaseFn fn) {
  S().streams.push_back({prop, {name, quick_cases, thorough_cases, fn}});
}

static void run_case(const Stream& st, u64 idx, int limit) {
  S().cur_stream = st.name;
  S().cur_index = idx;
  write_crumb("run");
  Rng rng(hcomb(hcomb(mix(env().seed), hash_str(st.name)), idx));
  arm(limit);
  S().case_acc = hash_str(st.name);
  S().case_has = false;
  ++S().cases[st.name];
  try {
    st.fn(rng, idx);
  } catch (const CaseAborted&) {
  } catch (const CaseDiscarded& d) {
    ++S().discards[st.name];
    ++S().discard_why[d.why];
  } catch (const AssertFired& e) {
    violation("assert:" + base_of(e.file), std::string("assertion fired in an "
              "admissible use: ") + e.what());
  } catch (const std::exception& e) {
    violation("exception", std::string("exception in an admissible use: ") +
                               e.what());
  } catch (...) {
    violation("exception", "unknown exception in an admissible use");
  }
  arm(0);
  if (S().case_has) S().case_sigs.insert(S().case_acc);
}

static void terminate_handler() {
  static bool once = false;
  if (!once) {
    once = true;
    std::string w = "terminate";
    try {
      if (auto e = std::current_exception()) std::rethrow_exception(e);
    } catch (const std::exception& e) {
      w = std::string("terminate: ") + e.what();
    } catch (...) {
    }
    std::cerr << "MON: " << w << std::endl;
  }
  std::abort();
}
}  // namespace mon

namespace lf::base {
// Replacement of lib/lf/base/lf_assert.cc: report instead of abort.
void AssertionFailed(const std::string& expr, const std::string& file,
                     long line, const std::string& msg) {
  mon::AssertFired e;
  e.expr = expr;
  e.file = file;
  e.line = line;
  e.msg = msg;
  e.full = "(" + expr + ") at " + file + ":" + std::to_string(line) + " " + msg;
  if (mon::env().replay && std::getenv("MON_TRACE")) {
    void* bt[64];
    const int n = backtrace(bt, 64);
    backtrace_symbols_fd(bt, n, 2);
  }
  throw e;
}
}  // namespace lf::base
namespace boost {
void assertion_failed_msg(char const* expr, char const* msg, char const*,
                          char const* file, long line) {
  lf::base::AssertionFailed(expr, file, line, msg);
}
void assertion_failed(char const* expr, char const*, char const* file,
                      long line) {
  lf::base::AssertionFailed(expr, file, line, "");
}
}  // namespace boost

int main(int argc, char** argv) {
  using namespace mon;
  std::string prop, out, crumb, only_stream;
  long long only_case = -1;
  std::string start_stream;
  u64 start_case = 0;
  int limit = 60;
  double scale = 1.0;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--prop") prop = val();
    else if (a == "--out") out = val();
    else if (a == "--crumb") crumb = val();
    else if (a == "--seed") env().seed = std::stoull(val());
    else if (a == "--tier") env().tier = val() == "thorough" ? Tier::thorough : Tier::quick;
    else if (a == "--shard") env().shard = std::stoi(val());
    else if (a == "--nshards") env().nshards = std::stoi(val());
    else if (a == "--stream") only_stream = val();
    else if (a == "--case") only_case = std::stoll(val());
    else if (a == "--start-stream") start_stream = val();
    else if (a == "--start-case") start_case = std::stoull(val());
    else if (a == "--limit") limit = std::stoi(val());
    else if (a == "--scale") scale = std::stod(val());
    else if (a == "--scratch") env().scratch = val();
    else if (a == "--replay") env().replay = true;
    else { std::cerr << "unknown arg " << a << "\n"; return 5; }
  }
  if (!crumb.empty()) {
    crumb_fd = ::open(crumb.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  }
  signal(SIGPROF, on_alarm);
  std::set_terminate(terminate_handler);
  env().prop = prop;
  register_all();
  bool started = start_stream.empty();
  for (auto& [p, st] : S().streams) {
    if (p != prop) continue;
    if (!only_stream.empty() && st.name != only_stream) continue;
    u64 first = 0;
    if (!started) {
      if (st.name != start_stream) continue;
      started = true;
      first = start_case;
    }
    u64 n = thorough() ? st.thorough : st.quick;
    // scale only affects randomised streams with many cases
    if (n > 64) n = std::max<u64>(64, static_cast<u64>(n * scale));
    if (only_case >= 0) {
      run_case(st, static_cast<u64>(only_case), limit);
      continue;
    }
    for (u64 i = first; i < n; ++i) {
      if (static_cast<int>(i % env().nshards) != env().shard) continue;
      run_case(st, i, limit);
    }
  }
  write_crumb("done");
  auto& s = S();
  std::ostringstream o;
  o.precision(17);
  o << "{\n\"events\":{";
  bool f = true;
  for (auto& [k, v] : s.events) {
    o << (f ? "" : ",") << '"' << jesc(k) << "\":" << v;
    f = false;
  }
  o << "},\n\"expected\":[";
  f = true;
  for (auto& k : s.expected) {
    o << (f ? "" : ",") << '"' << jesc(k) << '"';
    f = false;
  }
  o << "],\n\"cases\":{";
  f = true;
  for (auto& [k, v] : s.cases) {
    o << (f ? "" : ",") << '"' << jesc(k) << "\":" << v;
    f = false;
  }
  o << "},\n\"discards\":{";
  f = true;
  for (auto& [k, v] : s.discards) {
    o << (f ? "" : ",") << '"' << jesc(k) << "\":" << v;
    f = false;
  }
  o << "},\n\"discard_why\":{";
  f = true;
  for (auto& [k, v] : s.discard_why) {
    o << (f ? "" : ",") << '"' << jesc(k) << "\":" << v;
    f = false;
  }
  o << "},\n\"notes\":{";
  f = true;
  for (auto& [k, v] : s.notes) {
    o << (f ? "" : ",") << '"' << jesc(k) << "\":"
      << (std::isfinite(v) ? v : 1e308);
    f = false;
  }
  o << "},\n\"samples\":[";
  f = true;
  for (auto& k : s.samples) {
    o << (f ? "" : ",") << '"' << jesc(k) << '"';
    f = false;
  }
  o << "],\n\"sigs\":[";
  f = true;
  for (auto h : s.sigs) {
    o << (f ? "" : ",") << h;
    f = false;
  }
  o << "],\n\"case_sigs\":[";
  f = true;
  for (auto h : s.case_sigs) {
    o << (f ? "" : ",") << h;
    f = false;
  }
  o << "],\n\"violations\":[";
  f = true;
  for (auto& v : s.viols) {
    o << (f ? "" : ",\n") << "{\"key\":\"" << jesc(v.key) << "\",\"stream\":\""
      << jesc(v.stream) << "\",\"index\":" << v.index << ",\"msg\":\""
      << jesc(v.msg) << "\"}";
    f = false;
  }
  o << "],\n\"violation_counts\":{";
  f = true;
  for (auto& [k, v] : s.viol_count) {
    o << (f ? "" : ",") << '"' << jesc(k) << "\":" << v;
    f = false;
  }
  o << "}\n}\n";
  if (!out.empty()) {
    std::ofstream(out) << o.str();
  } else {
    std::cout << o.str();
  }
  return 0;
}
