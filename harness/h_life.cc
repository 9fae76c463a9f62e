// X01: lifetimes, ownership and leaks.
#include <sanitizer/allocator_interface.h>

#include "life.h"

#if defined(__SANITIZE_ADDRESS__)
#define MON_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#endif

using namespace life;

namespace {
long allocated() {
#ifdef MON_ASAN
  return (long)__sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

void programs(Rng& rng, u64) {
  const u64 s = rng.next();
  Rng r(s);
  World w(r, thorough());
  w.run(thorough() ? r.uni(20, 120) : r.uni(15, 60));
  sig(w.h);
  sample(w.log.substr(0, 300));
}
// the same program again and again: what is allocated after each must not grow
void leak(Rng& rng, u64) {
  const u64 s = rng.next();
  const int ops = thorough() ? 60 : 30;
  std::vector<long> b;
  std::string log;
  for (int k = 0; k < 5; ++k) {
    {
      Rng r(s);
      World w(r, false);
      w.run(ops);
      log.assign(w.log);
    }
    b.push_back(allocated());
  }
  MON_CHECK(!(b[2] > b[1] && b[3] > b[2] && b[4] > b[3]), "leak",
            "bytes allocated after repetitions of one program: " << b[0] << " " << b[1] << " " << b[2] << " " << b[3] << " " << b[4] << " :" << log);
  sig(hash_str(log));
}
}  // namespace

namespace mon {
void register_all() {
  stream("X01", "programs", 500, 6000, programs);
#ifdef MON_ASAN
  stream("X01", "leaks", 80, 900, leak);
#endif
  expect("X01", {"unchanged", "answers", "destroyed", "moved", "refined", "moved_space", "unchanged:mesh", "unchanged:level_mesh", "unchanged:gmsh_mesh", "unchanged:hierarchy", "unchanged:transfer", "unchanged:uniform_dofs", "unchanged:dynamic_dofs", "unchanged:hierarchic", "unchanged:hierarchic_varying", "unchanged:fe_function", "unchanged:fe_gradient", "unchanged:expression", "unchanged:codim_data", "unchanged:all_codim_data", "unchanged:provider_fe", "unchanged:provider_uscalfe", "unchanged:matrix", "unchanged:rule_cache", "unchanged:derived_shape", "vtk_written", "vtk_data", "refused_file"});
}
}  // namespace mon
