// C21: mem::cache.  Symbolic sequence of lookups and clears, symbolic hashes, operations that recurse into the cache or throw.
#include "sym.h"
#include <cassert>
#include <algorithm>
#include <functional>
#include <memory>
#include <tuple>
#include <type_traits>
#include "sdd/mem/cache.hh"
static unsigned H[6];
static int results = 0;  // live results
static unsigned version = 0, fails = 0, evals = 0;
struct res { unsigned v; 
  explicit res(unsigned x) : v(x) { ++results; } res(const res& o) : v(o.v) { ++results; } res(res&& o) : v(o.v) { ++results; } ~res() { --results; v = 0xdead; } };
struct boom {};
struct ctx;
struct op { unsigned key; res operator()(ctx& c) const; friend bool operator==(const op& a, const op& b) noexcept { return a.key == b.key; } };
namespace std { template <> struct hash<op> { size_t operator()(const op& o) const noexcept { return H[o.key % 6]; } }; }
struct no_five { bool operator()(const op& o) const { return o.key != 5; } };
using cache_t = sdd::mem::cache<ctx, op, no_five>;
struct ctx { cache_t* c; };
static unsigned value(unsigned key) { return key * 16 + version * 256; }
res op::operator()(ctx& c) const {
  ++evals;
  if ((fails >> key) & 1) throw boom{};
  if (key == 2) { const res r = (*c.c)(op{0}); SYM_ASSERT(r.v == value(0), "nested lookup gives the value of its operation"); }
  if (key == 3) { const res r = (*c.c)(op{2}); const res q = (*c.c)(op{1}); SYM_ASSERT((r.v == value(2)) & (q.v == value(1)), "nested lookup gives the value of its operation"); }
  return res(value(key));
}
static bool must_fail(unsigned k) { auto f = [](unsigned x) { return ((fails >> x) & 1) != 0; };
  return k == 2 ? f(2) || f(0) : k == 3 ? f(3) || f(2) || f(0) || f(1) : f(k); }
void harness_main() {
  const unsigned K = __sym_param("STEPS", 5), size = __sym_param("SIZE", 2), nk = __sym_param("KEYS", 4), acts = __sym_param("ACTS", 2);
  const unsigned hb = __sym_param("HB", 1);
  for (auto& x : H) x = hb ? sym_pick("h", 1u << hb) : 0;
  {
    ctx cx; cache_t c(cx, size); cx.c = &c;
    unsigned lookups = 0;
    for (unsigned s = 0; s < K; ++s) {
      const unsigned a = sym_pick("act", nk + acts);
      if (a == nk) { c.clear(); ++version; SYM_ASSERT(c.size() == 0, "a cleared cache is empty"); SYM_ASSERT(results == 0, "clearing releases every result"); SYM_REACH("clear"); continue; }
      if (a == nk + 1) { fails = sym_pick("fails", 4) * 1; continue; }
      const unsigned before = evals;
      bool threw = false; unsigned got = 0;
      const auto hits = c.statistics().hits;
      try { const res r = c(op{a}); got = r.v; ++lookups; } catch (boom&) { threw = true; SYM_REACH("throw"); }
      const bool hit = c.statistics().hits != hits && evals == before;
      if (threw) SYM_ASSERT(must_fail(a), "an exception comes from the operation");
      else {
        SYM_ASSERT(got == value(a), "a lookup gives the value its operation computes");
        SYM_ASSERT(hit || evals > before, "a value that is not stored is computed");
        if (a == 5) SYM_ASSERT(evals > before, "a filtered operation is always evaluated");
        if (a < 2 && evals == before) SYM_REACH("hit");
      }
      SYM_ASSERT(c.size() <= (size < 2 ? 2 : size), "the cache never exceeds its capacity");
      SYM_ASSERT((unsigned)results == c.size(), "one result is kept per entry");
      if (c.statistics().discarded) SYM_REACH("evict");
      __symx_observe(got);
    }
  }
  SYM_ASSERT(results == 0, "destroying the cache releases every result");
  SYM_REACH("end");
}
