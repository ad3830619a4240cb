// C12: identity, constants, cons, the empty operand; PART 1: every application distributes over the union of its operands.
#include "hshape.h"
static bool mem3(unsigned m, unsigned p) { return (m & p) != 0; }
void harness_main() {
  auto m = sdd::init(C(16, 128));
  const unsigned shape = __sym_param("SHAPE", 0), mode = __sym_param("MODE", 0);
  NL() = order_levels(shape); SH() = shape;
  const Ord o(mk_order(shape)); const D zero = sdd::zero<C>(), one = sdd::one<C>();
  unsigned p[3] = {0, 0, 0}; for (unsigned l = 0; l < NL(); ++l) p[l] = onehot("p");
  if (__sym_param("PART", 0) == 0) {
    const operand x = mk_operand(o, __sym_param("NC", 2), __sym_param("MODES", 0b110001), __sym_param("MODES2", 0b111011));
    unsigned cm[3]; for (unsigned l = 0; l < 3; ++l) cm[l] = l == 0 ? (unsigned)__symx_input("c", 4) : 6; const D c = cube_rec(o, cm); bool inc = true; for (unsigned l = 0; l < NL(); ++l) inc = inc & mem3(cm[l], p[l]);
    SYM_ASSERT(sdd::id<C>()(o, x.x) == x.x && sdd::id<C>()(o, zero) == zero && sdd::id<C>()(Ord(OB()), one) == one, "identity returns its operand");
    const Hom k = sdd::constant<C>(c); const D r = k(o, x.x);
    SYM_ASSERT(r == (x.x.empty() ? zero : c) && k(o, zero) == zero, "a constant returns its SDD on a non-empty operand");
    SYM_ASSERT(in(r, p) == (inc & !x.x.empty()), "a constant contains exactly its assignments");
    SYM_ASSERT(sdd::constant<C>(zero)(o, x.x) == zero && k(Ord(OB()), one) == c, "constants on terminals");
    const rel f = mk_rel(__sym_param("KIND", 5)); const unsigned lv = NL() - 1; const Hom h = sdd::function<C>(o, lv, rel(f)); // on the last flat level
    SYM_ASSERT(h(o, zero) == zero && sdd::composition(k, h)(o, zero) == zero && sdd::sum<C>(o, {k, h})(o, zero) == zero, "the empty operand has an empty image");
    { // constants among combinations
      const H hd = h_fun(lv, f); const bool any = !h(o, x.x).empty(); const bool ih = img(hd, x, p);
      SYM_ASSERT(in(sdd::composition(k, h)(o, x.x), p) == (inc & any), "a constant after a function");
      bool ihc = false; { const pred pc = [&](const unsigned* q) { bool b = true; for (unsigned l = 0; l < NL(); ++l) b = b & mem3(cm[l], q[l]); return b; }; ihc = img(hd, pc, p); }
      SYM_ASSERT(in(sdd::composition(h, k)(o, x.x), p) == (ihc & !x.x.empty()), "a function after a constant");
      SYM_ASSERT(in(sdd::sum<C>(o, {h, k})(o, x.x), p) == (ih | (inc & !x.x.empty())), "a function or a constant");
    }
    // cons: a level in front of the images of its operand
    if (!o.next().empty() && !x.x.empty()) {
      const unsigned v = (unsigned)__symx_input("v", 4); const bool flat = o.nested().empty(); const Ord n = o.next();
      const unsigned first = flat ? 1 : dp(cube_rec(o.nested(), std::array<unsigned, 3>{{1, 1, 1}}.data())); // flat levels of the first level
      const D tail = cube_rec(n, std::array<unsigned, 3>{{cm[0], 5, 6}}.data()); const unsigned tm[3] = {cm[0], 5, 6};
      bool int_ = true, ih = true; for (unsigned l = first; l < NL(); ++l) int_ = int_ & mem3(tm[l], p[l]);
      { const pred pt = [&](const unsigned* q) { bool b = true; for (unsigned l = first; l < NL(); ++l) b = b & mem3(tm[l], q[l]); return b; }; ih = img(h_fun(lv, f), pt, p); }
      const Hom next = sdd::function<C>(o, lv, rel(f)); // seen from the rest of the order, the same level
      const Ord whole = o;
      if (flat) {
        const Hom k1 = sdd::cons<C>(o, b4(v), sdd::id<C>()), k2 = sdd::cons<C>(o, b4(v), next);
        SYM_ASSERT(in(k1(n, tail), p) == (mem3(v, p[0]) & int_), "cons prefixes its operand with a level");
        SYM_ASSERT(in(k2(n, tail), p) == (mem3(v, p[0]) & ih), "cons prefixes the images of its operand with a level");
        SYM_ASSERT(k1(n, zero) == zero && sdd::cons<C>(o, b4(0), sdd::id<C>())(n, tail) == zero, "cons of nothing is empty");
      } else {
        const unsigned vm[3] = {v, 9, 9}; const D w = cube_rec(o.nested(), vm); bool inw = true; for (unsigned l = 0; l < first; ++l) inw = inw & mem3(vm[l], p[l]);
        const Hom k1 = sdd::cons<C>(o, w, sdd::id<C>()), k2 = sdd::cons<C>(o, w, next);
        SYM_ASSERT(in(k1(n, tail), p) == (inw & int_), "cons prefixes its operand with a nested level");
        SYM_ASSERT(in(k2(n, tail), p) == (inw & ih), "cons prefixes the images of its operand with a nested level");
        SYM_ASSERT(k1(n, zero) == zero && sdd::cons<C>(o, zero, sdd::id<C>())(n, tail) == zero, "cons of nothing is empty");
      }
      SYM_REACH("cons");
    }
  } else if (__sym_param("PART", 0) == 2) { // what is accepted as a predicate: exactly the combinations of declared filters, and these do filter
    const H d = shape_of(mode, __sym_param("KINDS", 7)); Hom h = mk(o, d); if (__sym_param("REWRITE", 0)) h = sdd::rewrite(o, h);
    const std::function<bool(const H&)> sel = [&](const H& x) { if (x.k == H::FUN) return x.f.sel; bool r = true; for (unsigned i = x.k == H::ITE; i < x.sub.size(); ++i) r = r && sel(x.sub[i]); return r; };
    const unsigned lv = NL() - 1; const rel f = mk_rel(3); const Hom g = sdd::function<C>(o, lv, rel(f)); Hom t = sdd::id<C>(); bool ok = true;
    try { t = sdd::if_then_else(h, g, sdd::id<C>()); } catch (const std::invalid_argument&) { ok = false; }
    SYM_ASSERT(ok == sel(d) && h.selector() == ok, "if_then_else accepts exactly the predicates made of filters");
    if (ok) {
      const operand x = mk_operand(o, 2, __sym_param("MODES", 0b110101), 0b111011); const D k = h(o, x.x);
      SYM_ASSERT((k - x.x).empty() && (!in(k, p) | x(p)), "an accepted predicate only filters");
      SYM_ASSERT(t(o, x.x) == g(o, k) + (x.x - k), "a conditional acts on what the predicate keeps, and on the rest");
      SYM_REACH("accepted");
    } else SYM_REACH("refused");
    const std::vector<Hom> none; unsigned refused = 0;
    try { sdd::sum<C>(o, none.begin(), none.end()); } catch (const std::invalid_argument&) { ++refused; }
    try { sdd::intersection<C>(o, none.begin(), none.end()); } catch (const std::invalid_argument&) { ++refused; }
    SYM_ASSERT(refused == 2, "a sum or an intersection without operand is refused");
  } else {
    const H d = shape_of(mode, 16); Hom h = mk(o, d); if (__sym_param("REWRITE", 0)) h = sdd::rewrite(o, h);
    const operand x = mk_operand(o, 1, __sym_param("MODES", 0b110001), 0), y = mk_operand(o, __sym_param("NY", 1), 0b110111, 0b111011);
    SYM_ASSERT(h(o, zero) == zero, "the empty operand has an empty image");
    SYM_ASSERT(h(o, x.x + y.x) == h(o, x.x) + h(o, y.x), "the image of a union is the union of the images");
    __symx_observe(h(o, x.x).empty());
  }
  SYM_REACH("end");
}
