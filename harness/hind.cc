// C15: user inductive homomorphisms, against their unfolding.
#include "hb.h"
// VARIANT 0 f at the target identifier; 1 f at every flat level; 2 f at the target, then stop; 3 as 0, the other levels declared skipped;
// 4 f at one level or none; 5 f at exactly one level; 6 filter at every level, declared a selector; 7 nothing but the terminal's value
struct ind {
  unsigned variant, target; rel f; bool hier;
  template <class V> Hom flat(const Ord& o, const V& v, const V& fv, bool here) const {
    const Hom self = sdd::inductive<C>(*this);
    switch (variant) {
      case 0: case 3: return here ? sdd::cons(o, fv, self) : sdd::cons(o, v, self);
      case 1: case 6: return sdd::cons(o, fv, self);
      case 2: return here ? sdd::cons(o, fv, sdd::id<C>()) : sdd::cons(o, v, self);
      case 4: case 5: return sdd::sum<C>(o.next(), {sdd::cons(o, fv, sdd::id<C>()), sdd::cons(o, v, self)});
      default: return sdd::cons(o, v, self);
    }
  }
  Hom operator()(const Ord& o, const B4& v) const { return flat<B4>(o, v, f(v), o.identifier().user() == target); }
  Hom operator()(const Ord& o, const D& x) const {
    const D nx = sdd::inductive<C>(*this)(o.nested(), x);
    if (variant == 0 || variant == 2) return sdd::cons(o, nx, sdd::inductive<C>(*this));
    return flat<D>(o, x, nx, false);
  }
  D operator()() const { return variant == 5 || variant == 7 ? sdd::zero<C>() : sdd::one<C>(); }
  bool selector() const noexcept { return variant == 6; }
  friend bool operator==(const ind& a, const ind& b) noexcept { return a.variant == b.variant && a.target == b.target && a.f == b.f; }
};
struct ind_skip : ind { bool skip(unsigned id) const noexcept { return id != target; }
  Hom operator()(const Ord& o, const B4& v) const { SYM_ASSERT(o.identifier().user() == target, "a level declared skipped is not visited"); return sdd::cons(o, f(v), sdd::inductive<C>(*this)); }
  Hom operator()(const Ord& o, const D& x) const { SYM_ASSERT(o.identifier().is_artificial(), "a level declared skipped is not visited"); return sdd::cons(o, sdd::inductive<C>(*this)(o.nested(), x), sdd::inductive<C>(*this)); }
  D operator()() const { return sdd::one<C>(); } };
namespace std { template <> struct hash<ind> { size_t operator()(const ind& i) const noexcept { return i.variant * 8 + i.target; } }; template <> struct hash<ind_skip> { size_t operator()(const ind_skip& i) const noexcept { return i.target; } }; }
void harness_main() {
  auto m = sdd::init(C{});
  const unsigned shape = __sym_param("SHAPE", 0), variant = __sym_param("VARIANT", 0); SH() = shape; NL() = order_levels(shape);
  const Ord o(mk_order(shape));
  const operand x = mk_operand(o, __sym_param("NC", 2), __sym_param("MODES", 0), __sym_param("MODES2", 0b111011));
  unsigned p[3] = {0, 0, 0}; for (unsigned l = 0; l < NL(); ++l) p[l] = onehot("p");
  const bool uses_target = variant == 0 || variant == 2 || variant == 3;
  const unsigned target = uses_target ? shape == 9 ? 0 : sym_pick("target", NL()) : 99;
  const rel f = mk_rel(variant == 6 ? 0 : (unsigned)__sym_param("KIND", 2));
  const ind i{variant, target, f, false};
  ind_skip is; static_cast<ind&>(is) = i;
  const Hom h = variant == 3 ? sdd::inductive<C>(is) : sdd::inductive<C>(i);
  SYM_ASSERT(h.selector() == (variant == 6), "selector() is the user's");
  const D r = h(o, x.x);
  SYM_ASSERT(canon(r, p), "the result is in canonical form");
  bool e = false;
  if (uses_target) e = img(h_fun(target, f), x, p);
  else if (variant == 1 || variant == 6) { H c = h_id(); for (unsigned l = 0; l < NL(); ++l) c = h_n(H::COMP, {h_fun(l, f), c}); e = img(c, x, p); }
  else if (variant == 4 || variant == 5) { for (unsigned l = 0; l < NL(); ++l) e = e | img(h_fun(l, f), x, p); if (variant == 4) e = e | x(p); }
  if (uses_target && shape != 0 && shape != 5 && shape != 9) SYM_ASSERT(in(r, p) == e, "an inductive that looks at identifiers, on a hierarchical order");
  else SYM_ASSERT(in(r, p) == e, "the result is the unfolding of the definition");
  if (!r.empty()) SYM_REACH("nonempty"); else SYM_REACH("empty");
  __symx_observe(r.empty());
  SYM_REACH("end");
}
