// C22: the same computation under every choice of table, cache and buffer sizes, with resets of the homomorphism cache at chosen points.
#include "hshape.h"
static unsigned pick_of(const char* n, const char* par, std::uint64_t dflt) { // one hexadecimal digit per choice: 0..9 the size, a..f 16, 32, 64, 256, 1024, 4096; 15 digits at most, f0 ends
  const std::uint64_t s = __sym_param(par, dflt); unsigned k = 0; while (k < 15 && (s >> (4 * k)) != 1) ++k; // a leading 1 ends the list
  const unsigned d = (s >> (4 * sym_pick(n, k))) & 15;
  static const unsigned big[] = {16, 32, 64, 256, 1024, 4096};
  return d < 10 ? d : big[d - 10];
}
void harness_main() {
  const unsigned shape = __sym_param("SHAPE", 0), mode = __sym_param("MODE", 0);
  const unsigned t = pick_of("table", "TS", 0x1a421), c = pick_of("cache", "CS", 0x1b210), a = pick_of("arena", "AS", 0x1fc0);
  const auto before = __sym_live_blocks();
  {
    auto m = sdd::init(C(t, c, a));
    NL() = order_levels(shape); SH() = shape;
    const Ord o(mk_order(shape));
    const operand x = mk_operand(o, __sym_param("NC", 2), __sym_param("MODES", 0b110001), __sym_param("MODES2", 0b111011));
    unsigned p[3] = {0, 0, 0}; for (unsigned l = 0; l < NL(); ++l) p[l] = onehot("p");
    const unsigned e8[3] = {12, 12, 12}; const D y = cube_rec(o, e8); bool iny = true; for (unsigned l = 0; l < NL(); ++l) iny = iny & (p[l] >= 4);
    const bool inx = x(p);
    SYM_ASSERT(in(x.x, p) == inx, "building does not depend on the sizes");
    const D u = x.x + y, i = x.x & y, d = y - x.x;
    SYM_ASSERT((in(u, p) == (inx | iny)) & (in(i, p) == (inx & iny)) & (in(d, p) == (iny & !inx)), "set operations do not depend on the sizes");
    SYM_ASSERT(i + d == y && (u - y) + (x.x & y) == x.x, "canonicity does not depend on the sizes");
    if (!x.x.empty()) {
      const H de = shape_of(mode, 16); Hom h = mk(o, de); if (__sym_param("REWRITE", 0)) h = sdd::rewrite(o, h);
      const unsigned rs = sym_pick("resets", 4);
      if (rs & 1) m.reset_hom_cache();
      const D r1 = h(o, x.x);
      if (rs & 2) m.reset_hom_cache();
      const D r2 = h(o, u);
      if (rs & 1) m.reset_hom_cache();
      const D r3 = h(o, x.x);
      SYM_ASSERT(r1 == r3, "evaluating twice gives the same SDD, whatever happened to the cache");
      const pred px = x, pu = [&](const unsigned* q) { bool k = true; for (unsigned l = 0; l < NL(); ++l) k = k & (q[l] >= 4); return k | x(q); };
      if (de.k != H::FIX) SYM_ASSERT((in(r1, p) == img(de, px, p)) & (in(r2, p) == img(de, pu, p)), "evaluations do not depend on the sizes");
      else {
        const H& b = de.sub[0]; pred s = px; // four values per level: at most 4 * NL iterations for monotone chains
        const Hom g = mk(o, b); D w = x.x, z = g(o, w); for (unsigned n = 0; n < 64 && z != w; ++n) { w = z; z = g(o, w); }
        SYM_ASSERT(r1 == w, "fixpoints do not depend on the sizes");
      }
      SYM_ASSERT((in(u, p) == (inx | iny)) & (in(x.x, p) == inx), "operands keep their meaning");
    }
    if (c <= 2) SYM_REACH("small");
  }
  SYM_ASSERT(__sym_live_blocks() == before, "everything is released with the manager");
  SYM_REACH("end");
}
