// C14: local homomorphisms.  The inner homomorphism is built from the nested list of levels, taken as an order of its own.
#include "hb.h"
static unsigned nleaf = 0, kinds;
static H lf(unsigned l) { const std::uint64_t kd = (__sym_param("KSEQ", ~0ull) >> (4 * nleaf++)) & 15; return h_fun(l, mk_rel(kd == 15 ? 4 : (unsigned)kd)); }
void harness_main() {
  auto m = sdd::init(C{});
  const unsigned shape = __sym_param("SHAPE", 1), mode = __sym_param("MODE", 0); SH() = shape; NL() = order_levels(shape);
  const Ord o(mk_order(shape));
  const operand x = mk_operand(o, __sym_param("NC", 2), __sym_param("MODES", 0), __sym_param("MODES2", 0b111011));
  unsigned p[3] = {0, 0, 0}; for (unsigned l = 0; l < NL(); ++l) p[l] = onehot("p");
  // hierarchical identifiers of the top list, with the flat levels inside
  std::vector<std::pair<unsigned, std::vector<unsigned>>> tops;
  switch (shape) { case 1: case 7: tops = {{10, {0, 1}}}; break; case 2: tops = {{10, {1, 2}}}; break; case 3: tops = {{10, {0}}, {11, {1}}, {12, {2}}}; break;
    case 4: tops = {{11, {0, 1}}}; break; case 6: tops = {{10, {0}}, {11, {1}}}; break; default: tops = {{11, {0}}}; }
  const auto& t = tops[sym_pick("top", tops.size())]; const unsigned l0 = t.second[sym_pick("lv", t.second.size())];
  H d = h_id();
  switch (mode) {
    case 0: d = h_local(t.first, lf(l0)); break;
    case 1: { const unsigned l1 = t.second[sym_pick("lv1", t.second.size())]; d = h_local(t.first, h_n(H::COMP, {lf(l0), lf(l1)})); break; }
    case 2: d = h_local(t.first, h_n(H::SUM, {h_id(), lf(l0)})); break;
    case 3: { const auto& u = tops[sym_pick("top2", tops.size())]; d = h_n(H::COMP, {h_local(t.first, lf(l0)), h_local(u.first, lf(u.second[0]))}); break; }
    case 4: { const auto& u = tops[sym_pick("top2", tops.size())]; d = h_n(H::SUM, {h_local(t.first, lf(l0)), h_local(u.first, lf(u.second[0]))}); break; }
    case 5: d = h_local(11, h_local(10, lf(0))); break;                       // shapes 4 and 8
    case 6: d = h_local(t.first, h_id()); SYM_ASSERT(mk(o, d) == sdd::id<C>(), "a local identity is the identity"); break;
    default: { // a constant nested part
      const unsigned cm = (unsigned)__symx_input("c", 4); const Ord n(mk_nested(shape, t.first)); unsigned ms[3] = {cm, cm, cm};
      const D c = cube_rec(n, ms); const Hom h = sdd::local<C>(t.first, o, sdd::constant<C>(c)); const D r = h(o, x.x);
      bool some = false, inside = true; // some assignment of x has p outside the nested part
      unsigned q[3] = {p[0], p[1], p[2]};
      for (unsigned l : t.second) inside = inside & ((cm & p[l]) != 0);
      for (auto& k : x.cubes) { bool e = true; for (unsigned l = 0; l < NL(); ++l) { bool nested = false; for (unsigned w : t.second) nested = nested | (w == l); e = e & (nested ? k[l] != 0 : (k[l] & q[l]) != 0); } some = some | e; }
      SYM_ASSERT(in(r, p) == (some & inside), "a local constant replaces the nested part");
      SYM_REACH("end"); return;
    }
  }
  const Hom h = mk(o, d);
  const D r = h(o, x.x);
  SYM_ASSERT(canon(r, p), "the result is in canonical form");
  SYM_ASSERT(in(r, p) == img(d, x, p), "a local homomorphism acts inside its level only");
  if (!r.empty()) SYM_REACH("nonempty"); else SYM_REACH("empty");
  __symx_observe(r.empty());
  SYM_REACH("end");
}
