// C12-C19: homomorphisms built from parts, on symbolic operands.  MODE selects the shapes.
#include "hshape.h"
static unsigned shape, mode;
static bool has_fix(const H& d) { if (d.k == H::FIX) return true; for (auto& s : d.sub) if (has_fix(s)) return true; return false; }
// the meaning, with the operations on SDDs; only the functions are real homomorphisms
static D den(const Ord& o, const H& d, const D& x) {
  switch (d.k) {
    case H::COMP: return den(o, d.sub[0], den(o, d.sub[1], x));
    case H::SUM: { D r = sdd::zero<C>(); for (auto& s : d.sub) r = r + den(o, s, x); return r; }
    case H::INTER: { D r = den(o, d.sub[0], x); for (auto& s : d.sub) r = r & den(o, s, x); return r; }
    case H::ITE: { const D t = den(o, d.sub[0], x); return den(o, d.sub[1], t) + den(o, d.sub[2], x - t); }
    case H::FIX: { D y = x, z = den(o, d.sub[0], y); for (unsigned i = 0; i < 64 && z != y; ++i) { y = z; z = den(o, d.sub[0], y); } return y; }
    default: return mk(o, d)(o, x);
  }
}
void harness_main() {
  auto m = sdd::init(C{});
  shape = __sym_param("SHAPE", 0); mode = __sym_param("MODE", 0);
  NL() = order_levels(shape); SH() = shape;
  const Ord o(mk_order(shape));
  const operand x = mk_operand(o, __sym_param("NC", 1), __sym_param("MODES", 0), __sym_param("MODES2", __sym_param("MODES", 0)));
  unsigned p[3] = {0, 0, 0}; for (unsigned l = 0; l < NL(); ++l) p[l] = onehot("p");
  SYM_ASSERT(in(x.x, p) == x(p), "the operand holds its cubes");
  const H d = shape_of(mode, __sym_param("KINDS", 16));
  const Hom h = mk(o, d);
  const D r = h(o, x.x);
  SYM_ASSERT(canon(r, p), "the result is in canonical form");
  if (mode >= 24 && has_fix(d)) SYM_ASSERT(r == den(o, d, x.x), "the result is the meaning of the homomorphism");
  else if (d.k != H::FIX) SYM_ASSERT(in(r, p) == img(d, x, p), "the result is the meaning of the homomorphism");
  else { // the first value of x, h(x), h(h(x)), ... equal to its own image
    const Hom g = mk(o, d.sub[0]);
    D y = x.x, z = g(o, y);
    SYM_ASSERT(in(z, p) == img(d.sub[0], x, p), "one step is the meaning of the homomorphism");
    for (unsigned i = 0; i < 64 && z != y; ++i) { y = z; z = g(o, y); }
    SYM_ASSERT(r == y, "a fixpoint is the first stable iterate");
    SYM_ASSERT(g(o, r) == r, "a fixpoint is stable");
  }
  if (!r.empty()) SYM_REACH("nonempty"); else SYM_REACH("empty");
  if (__sym_param("REWRITE", 0)) {
    const Hom w = sdd::rewrite(o, h);
    if (w != h) SYM_REACH("rewritten");
    const D q = w(o, x.x);
    SYM_ASSERT(q == r, "the rewritten homomorphism gives the same result");
  }
  if (__sym_param("TWICE", 0)) {
    const Hom h2 = mk(o, d);
    SYM_ASSERT(h == h2, "the same homomorphism built twice is the same handle");
    SYM_ASSERT(std::hash<Hom>()(h) == std::hash<Hom>()(h2), "equal homomorphisms hash equally");
    SYM_ASSERT(h2(o, x.x) == r, "evaluating again gives the same result");
    if (h.selector()) { SYM_REACH("selector"); SYM_ASSERT(!in(r, p) | x(p), "a selector only removes assignments"); }
  }
  __symx_observe(r.empty());
  SYM_REACH("end");
}
