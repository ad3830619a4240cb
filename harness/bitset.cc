// C10: bitset as a set of small integers.  Every mask is symbolic; sizes 8, 32, 64 (one word), 16.
#include "sym.h"
#include <cassert>
#include "sdd/values/bitset.hh"
using namespace sdd::values;
template <std::size_t N> static std::uint64_t mask() { return N == 64 ? ~0ull : ((1ull << N) - 1); }
template <std::size_t N> static void go() {
  using B = bitset<N>;
  const std::uint64_t a = sym_u64("a") & mask<N>(), b = sym_u64("b") & mask<N>();
  const unsigned p = sym_below("p", N), s = sym_below("s", N);
  const B x{std::bitset<N>(a)}, y{std::bitset<N>(b)};
  const bool ia = (a >> p) & 1, ib = (b >> p) & 1;
  SYM_ASSERT(x.test(p) == ia, "test reads membership");
  SYM_ASSERT(sum(x, y).test(p) == (ia | ib), "union holds the values of either set");
  SYM_ASSERT(intersection(x, y).test(p) == (ia & ib), "intersection holds the common values");
  SYM_ASSERT(difference(x, y).test(p) == (ia & !ib), "difference holds the values of the first set only");
  SYM_ASSERT((x == y) == (a == b), "equal exactly when holding the same values");
  SYM_ASSERT((x != y) == (a != b), "!= is the negation of ==");
  SYM_ASSERT((x < y) == (a < b), "ordering is that of the sets as numbers");
  SYM_ASSERT(x.empty() == (a == 0), "empty exactly without values");
  SYM_ASSERT(x.content().to_ullong() == a, "content gives the values");
  B z = x; B& rz = z.insert(p);
  SYM_ASSERT(&rz == &z, "insert returns its set");
  SYM_ASSERT(z.content().to_ullong() == (a | (1ull << p)), "insert adds exactly its value");
  SYM_ASSERT(x.content().to_ullong() == a, "a copy is independent");
  SYM_ASSERT((x << s).content().to_ullong() == ((a << s) & mask<N>()), "left shift adds to every value and drops those above the capacity");
  SYM_ASSERT((x >> s).content().to_ullong() == (a >> s), "right shift subtracts from every value and drops the small ones");
  B u = x, w = y; swap(u, w);
  SYM_ASSERT(u == y && w == x, "swap exchanges the sets");
  const unsigned q = sym_below("q", N);
  const B l{(std::size_t)p, (std::size_t)q};
  SYM_ASSERT(l.content().to_ullong() == ((1ull << p) | (1ull << q)), "an initializer list makes the set of its values");
  SYM_ASSERT(B().empty(), "a default set is empty");
  if (N <= 16) { std::uint64_t c = 0; for (unsigned i = 0; i < N; ++i) c += (a >> i) & 1; SYM_ASSERT(x.size() == c, "size counts the values"); }
  else { SYM_ASSERT(x.size() == (std::size_t)__builtin_popcountll(a), "size counts the values"); }
  if (a == b) SYM_ASSERT(std::hash<B>()(x) == std::hash<B>()(y), "equal sets hash equally");
  __symx_observe(sum(x, y).content().to_ullong());
}
// more than one word: values on both sides of 64
static void wide() {
  using B = bitset<80>;
  const std::uint64_t al = sym_u64("al"), bl = sym_u64("bl"), ah = sym_u64("ah") & 0xffff, bh = sym_u64("bh") & 0xffff;
  auto mk = [](std::uint64_t h, std::uint64_t l) { return (std::bitset<80>(h) << 64) | std::bitset<80>(l); };
  const B x{mk(ah, al)}, y{mk(bh, bl)};
  const bool eq = (al == bl) & (ah == bh);
  SYM_ASSERT((x == y) == eq, "equal exactly when holding the same values");
  if (sym_pick("ord", 2)) { SYM_ASSERT((x < y) == ((ah < bh) | ((ah == bh) & (al < bl))), "ordering is that of the sets as numbers"); return; }
  SYM_ASSERT(x.empty() == ((al | ah) == 0), "empty exactly without values");
  const B u = sum(x, y), i = intersection(x, y), d = difference(x, y);
  SYM_ASSERT(u == B{mk(ah | bh, al | bl)}, "union holds the values of either set");
  SYM_ASSERT(i == B{mk(ah & bh, al & bl)}, "intersection holds the common values");
  SYM_ASSERT(d == B{mk(ah & ~bh, al & ~bl)}, "difference holds the values of the first set only");
  const unsigned p = sym_pick("p", 80); B z = x; z.insert(p);
  SYM_ASSERT(z.test(p), "insert adds its value");
  SYM_ASSERT(x.test(p) == (p < 64 ? (al >> p) & 1 : (ah >> (p - 64)) & 1), "test reads membership");
  SYM_ASSERT(z == sum(x, B{(std::size_t)p}), "insert adds exactly its value");
  SYM_REACH("80");
}
static void wide_hash() {
  using B = bitset<80>;
  B x{1}, y{1}; const unsigned p = sym_pick("hp", 80), q = sym_pick("hq", 2);
  x.insert(p); y.insert(q ? p : 79 - p);
  if (x == y) SYM_ASSERT(std::hash<B>()(x) == std::hash<B>()(y), "equal sets hash equally");
  (void)std::hash<B>()(y);
}
void harness_main() {
  const unsigned part = sym_pick("part", 3);
  if (part == 1) { wide(); return; }
  if (part == 2) { wide_hash(); return; }
  switch (sym_pick("size", 4)) { case 0: go<8>(); SYM_REACH("8"); break; case 1: go<16>(); SYM_REACH("16"); break; case 2: go<32>(); SYM_REACH("32"); break; default: go<64>(); SYM_REACH("64"); }
  // inserting beyond the capacity is refused, and the set is unchanged
  bitset<8> x{1, 2}; static const std::uint64_t ns[] = {8, 9, 63, 64, ~0ull}; const std::uint64_t n = ns[sym_pick("n", 5)];
  bool threw = false; try { x.insert(n); } catch (std::out_of_range&) { threw = true; }
  SYM_ASSERT(threw && x == (bitset<8>{1, 2}), "inserting beyond the capacity is refused");
  SYM_REACH("end");
}
