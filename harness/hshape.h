// Homomorphisms built from parts; MODE selects the shape.
#pragma once
#include "hb.h"
static unsigned nleaf = 0;
// KSEQ, LSEQ: one hexadecimal digit per leaf, in order: its kind of relation and its level; f: any one allowed by kinds, any level
static H leaf(unsigned kinds) {
  const std::uint64_t kd = (__sym_param("KSEQ", ~0ull) >> (4 * nleaf)) & 15, ld = (__sym_param("LSEQ", ~0ull) >> (4 * nleaf)) & 15; ++nleaf;
  std::vector<unsigned> ks; for (unsigned i = 0; i < 6; ++i) if ((kinds >> i) & 1) ks.push_back(i);
  const unsigned k = kinds != 1 && kd != 15 ? (unsigned)kd : ks.size() == 1 ? ks[0] : ks[sym_pick("kind", ks.size())];
  const unsigned l = ld != 15 ? (unsigned)ld : sym_pick("level", NL());
  return h_fun(l, mk_rel(k));
}
static H shape_of(unsigned md, unsigned kinds) {
  switch (md) {
    case 0: return leaf(kinds);
    case 1: return h_n(H::COMP, {leaf(kinds), leaf(kinds)});
    case 2: return h_n(H::SUM, {leaf(kinds), leaf(kinds)});
    case 3: return h_n(H::SUM, {h_id(), leaf(kinds)});
    case 4: return h_n(H::FIX, {h_n(H::SUM, {h_id(), leaf(kinds)})});
    case 5: return h_n(H::FIX, {h_n(H::SUM, {h_id(), leaf(kinds), leaf(kinds)})});
    case 6: return h_n(H::ITE, {leaf(1), leaf(kinds), leaf(kinds)});
    case 7: return h_n(H::INTER, {leaf(1), leaf(1)});
    case 8: return h_n(H::ITE, {h_n(H::INTER, {leaf(1), leaf(1)}), leaf(kinds), h_id()});
    case 9: return h_n(H::COMP, {h_n(H::COMP, {leaf(kinds), leaf(kinds)}), leaf(kinds)});
    case 10: return h_n(H::SUM, {leaf(kinds), leaf(kinds), leaf(kinds)});
    case 11: return h_n(H::COMP, {leaf(kinds), h_n(H::COMP, {leaf(kinds), leaf(kinds)})});
    case 12: return h_n(H::SUM, {h_n(H::COMP, {leaf(kinds), leaf(kinds)}), h_id()});
    case 13: return h_n(H::FIX, {h_n(H::SUM, {h_n(H::COMP, {leaf(kinds), leaf(1)}), h_id()})});
    case 14: return h_n(H::FIX, {leaf(1)});
    case 15: return h_n(H::ITE, {leaf(1), h_id(), leaf(kinds)});
    case 16: return h_n(H::FIX, {h_n(H::SUM, {h_id(), leaf(kinds), h_n(H::COMP, {leaf(kinds), leaf(kinds)})})});
    case 17: return h_n(H::ITE, {h_n(H::COMP, {leaf(1), leaf(1)}), leaf(kinds), leaf(kinds)});
    case 18: return h_n(H::INTER, {leaf(1), leaf(1), leaf(1)});
    case 19: return h_n(H::COMP, {h_n(H::SUM, {leaf(kinds), h_id()}), h_n(H::SUM, {leaf(kinds), h_id()})});
    case 21: return h_n(H::FIX, {h_n(H::SUM, {h_id(), leaf(kinds), leaf(kinds), leaf(kinds)})});
    case 22: return h_n(H::SUM, {h_n(H::COMP, {leaf(kinds), leaf(kinds)}), leaf(kinds)});
    case 23: return h_n(H::COMP, {h_n(H::COMP, {leaf(kinds), leaf(kinds)}), h_n(H::COMP, {leaf(kinds), leaf(kinds)})});
    case 24: return h_n(H::COMP, {h_n(H::FIX, {h_n(H::SUM, {h_id(), leaf(kinds)})}), leaf(kinds)});
    case 25: return h_n(H::SUM, {h_n(H::FIX, {h_n(H::SUM, {h_id(), leaf(kinds)})}), leaf(kinds)});
    case 26: return h_n(H::FIX, {h_n(H::SUM, {h_id(), h_n(H::COMP, {leaf(kinds), h_n(H::FIX, {h_n(H::SUM, {h_id(), leaf(kinds)})})})})});
    case 27: return h_n(H::ITE, {leaf(1), h_n(H::ITE, {leaf(1), leaf(kinds), leaf(kinds)}), leaf(kinds)});
    case 28: return h_n(H::SUM, {h_n(H::ITE, {leaf(1), leaf(kinds), leaf(kinds)}), leaf(kinds)});
    case 29: return h_n(H::SUM, {h_n(H::SUM, {leaf(kinds), leaf(kinds)}), h_n(H::SUM, {leaf(kinds), h_id()})});
    case 30: return h_n(H::COMP, {leaf(kinds), h_n(H::ITE, {leaf(1), leaf(kinds), h_id()})});
    case 31: return h_n(H::ITE, {leaf(1), h_n(H::FIX, {h_n(H::SUM, {h_id(), leaf(kinds)})}), leaf(kinds)});
    case 32: return h_n(H::FIX, {h_n(H::ITE, {leaf(1), leaf(kinds), h_id()})});
    case 33: return h_n(H::INTER, {h_n(H::COMP, {leaf(1), leaf(1)}), leaf(1)});
    default: return h_n(H::INTER, {h_id(), leaf(1)});
  }
}
