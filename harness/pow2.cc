// C26: rounding of sizes.
#include "sym.h"
#include "sdd/util/next_power.hh"
template <class T> static void one(T x, unsigned bits) {
  const T r = sdd::util::next_power_of_2<T>(x);
  SYM_ASSERT((r & (r - 1)) == 0, "result is a power of two");
  SYM_ASSERT(r != 0, "result is not zero");
  SYM_ASSERT(r >= x, "result is not smaller than the size");
  SYM_ASSERT((r == 1) | ((r >> 1) < x), "no smaller power of two fits");
  __symx_observe(r);
  SYM_REACH(bits == 64 ? "64" : "32");
}
void harness_main() {
  if (sym_pick("width", 2)) {
    const std::uint64_t x = sym_u64("x"); SYM_ASSUME((x >= 1) & (x <= (1ull << 63)));
    one<std::uint64_t>(x, 64);
    one<unsigned long>((unsigned long)x, 64);
  } else {
    const std::uint32_t x = sym_u32("x"); SYM_ASSUME((x >= 1) & (x <= (1u << 31)));
    one<std::uint32_t>(x, 32);
  }
  SYM_REACH("end");
}
