// C06 (PART 0, 1): counting; C07 (PART 2): enumeration of the paths.  Operands as in ops.cc.
#include "gen.h"
using u64 = std::uint64_t; using boost::multiprecision::cpp_int;
static unsigned NX;
// number of assignments, as a formula
static u64 count_fs() {
  std::vector<std::array<unsigned, MAXL>> pts; u64 n = 0;
  for (unsigned k = 0; k < NX; ++k) {
    unsigned per = 1; for (unsigned l = 0; l < L; ++l) per *= wide;
    for (unsigned c = 0; c < per; ++c) {
      std::array<unsigned, MAXL> q{}; unsigned r = c; for (unsigned l = 0; l < L; ++l) { q[l] = a[k][l][r % wide]; r /= wide; }
      bool fresh = true; for (auto& o : pts) { bool same = true; for (unsigned l = 0; l < L; ++l) same = same & (o[l] == q[l]); fresh = fresh & !same; }
      n += fresh; pts.push_back(q);
    }
  }
  return n;
}
static u64 pop(unsigned w) { u64 n = 0; for (unsigned i = 0; i < 8; ++i) n += (w >> i) & 1; return n; }
static u64 count_bs() { // inclusion and exclusion over the cubes
  u64 n = 0;
  if (L == 1) { unsigned u = 0; for (unsigned k = 0; k < NX; ++k) u |= a[k][0][0]; return pop(u); }
  for (unsigned sub = 1; sub < (1u << NX); ++sub) {
    unsigned c[MAXL]; for (unsigned l = 0; l < L; ++l) c[l] = 0xff;
    unsigned odd = 0; for (unsigned k = 0; k < NX; ++k) if (sub >> k & 1) { ++odd; for (unsigned l = 0; l < L; ++l) c[l] &= a[k][l][0]; }
    u64 w = pop(c[0]); for (unsigned l = 1; l < L; ++l) w = w * pop(c[l]);
    if (odd & 1) n += w; else n -= w;
  }
  return n;
}
static BSV bs(unsigned w) { return BSV(std::bitset<8>(w)); }
#ifdef BIG
// long chains: counts beyond 64 bits
static D chain(unsigned k, D r) { for (unsigned i = 0; i < k; ++i) r = D(i, bs(0xff), r); return r; }
static bool is(const cpp_int& s, u64 f, unsigned shift) { return (s >> shift) == f && (s & ((cpp_int(1) << shift) - 1)) == 0; }
static void big() {
  const unsigned k = __sym_param("K", 23), how = sym_pick("how", 4); const unsigned w = sym_u8("w"), v = sym_u8("v"); const D one = sdd::one<C>();
  if (how == 0) { const D x(k, bs(w), chain(k, one)); SYM_ASSERT(is(x.size(), pop(w), 3 * k), "size() of a large set is exact"); }
  else if (how == 1) { D x(0, bs(w), one); for (unsigned i = 1; i <= k; ++i) x = D(i, bs(0xff), x); SYM_ASSERT(is(x.size(), pop(w), 3 * k), "size() of a large set is exact, the symbolic level last"); }
  else if (how == 2) { const D x(0, D(k, bs(w), chain(k, one)), D(k, bs(v), chain(k, one))); SYM_ASSERT(is(x.size(), pop(w) * pop(v), 6 * k), "size() of a large nested set is exact"); }
  else { SYM_ASSUME((w & v) == 0); const D x = D(k, bs(w), chain(k, one)) + D(k, bs(v), D(k - 1, bs(1), chain(k - 1, one))); SYM_ASSERT(is(x.size(), 8 * pop(w) + pop(v), 3 * (k - 1)), "size() of a large union is exact"); }
}
#endif
void harness_main() {
  auto m = sdd::init(C{});
  const unsigned part = __sym_param("PART", 0); NX = __sym_param("NX", 2);
#ifdef BIG
  big(); SYM_REACH("end"); return;
#endif
  unsigned p[MAXL] = {0};
  setup(NX, NX, p);
  const D x = build(0, NX, 0);
  if (part == 0) {
    const cpp_int s = x.size();
    const u64 n = fs ? count_fs() : count_bs();
    SYM_ASSERT(s.convert_to<u64>() == n, "size() is the number of assignments");
    SYM_ASSERT(sdd::zero<C>().size() == 0 && sdd::one<C>().size() == 1, "sizes of the terminals");
    SYM_ASSERT(x.size() == s, "size() does not change the SDD");
    __symx_observe(x.empty());
  } else {
    if (x.empty()) { SYM_REACH("end"); return; }
    std::vector<sdd::path<C>> ps;
    auto gen = x.paths();
    while (gen) { ps.push_back(gen.get()); gen(); SYM_ASSERT(ps.size() <= 64, "the enumeration of the paths ends"); if (ps.size() > 64) return; }
    bool in = false;
    for (auto& q : ps) {
      SYM_ASSERT(q.size() == L, "a path has one set of values per flat level");
      if (q.size() != L) return;
      bool r = true; for (unsigned l = 0; l < L; ++l) { SYM_ASSERT(val_nonempty(q[l]), "a path holds no empty set"); r = r & val_in(q[l], p[l]); }
      in = in | r;
    }
    SYM_ASSERT(in == in_any(0, NX, p), "the paths cover exactly the assignments");
    for (unsigned i = 0; i < ps.size(); ++i) for (unsigned j = 0; j < i; ++j) { bool d = false; for (unsigned l = 0; l < L; ++l) d = d | val_disjoint(ps[i][l], ps[j][l]); SYM_ASSERT(d, "two paths hold no assignment in common"); }
    { auto g = x.paths(); SYM_ASSERT(static_cast<bool>(g), "an enumeration can be abandoned"); } // destroyed while running
    SYM_ASSERT(member(x, p) == in_any(0, NX, p), "enumerating does not change the SDD");
    __symx_observe(ps.size());
  }
  SYM_REACH("end");
}
