// C20: a user function that throws at any of its calls, or operands found incompatible during an evaluation; then the library is as before.
#include "hshape.h"
struct ind { // an inductive homomorphism that throws as well
  rel f;
  Hom operator()(const Ord& o, const B4& v) const { return sdd::cons(o, f(v), sdd::inductive<C>(*this)); }
  Hom operator()(const Ord& o, const D& x) const { return sdd::cons(o, sdd::inductive<C>(*this)(o.nested(), x), sdd::inductive<C>(*this)); }
  D operator()() const { return sdd::one<C>(); }
  friend bool operator==(const ind& a, const ind& b) noexcept { return a.f == b.f; }
};
namespace std { template <> struct hash<ind> { size_t operator()(const ind&) const noexcept { return 3; } }; }
void harness_main() {
  auto m = sdd::init(C(16, 128));
  const unsigned shape = __sym_param("SHAPE", 0), mode = __sym_param("MODE", 0), K = __sym_param("K", 4);
  NL() = order_levels(shape); SH() = shape;
  const Ord o(mk_order(shape));
  const operand x = mk_operand(o, __sym_param("NC", 2), __sym_param("MODES", 0b110001), __sym_param("MODES2", 0b111011));
  unsigned p[3] = {0, 0, 0}; for (unsigned l = 0; l < NL(); ++l) p[l] = onehot("p");
  if (x.x.empty()) { SYM_REACH("end"); return; }
  H d; Hom h = sdd::id<C>(); bool clash = false;
  if (mode == 100) h = sdd::inductive<C>(ind{mk_rel(5)});
  else if (mode == 101) { // a union met during the evaluation, of incompatible operands
    clash = true;
    const D other(7, b4(3), sdd::one<C>());
    h = sdd::sum<C>(o, {sdd::function<C>(o, 0, mk_rel(3)), sdd::constant<C>(other)});
  } else if (mode == 102) { // an initializer that throws
    const unsigned at = sym_pick("at", NL()); unsigned n = 0; bool th = false;
    try { const D y(o, [&](unsigned) { if (n++ == at) throw boom{}; return b4(5); }); } catch (const boom&) { th = true; }
    SYM_ASSERT(th, "the exception of an initializer reaches the caller");
    const D y(o, [&](unsigned) { return b4(5); });
    bool r = true; for (unsigned l = 0; l < NL(); ++l) r = r & ((p[l] & 5) != 0);
    SYM_ASSERT((in(y, p) == r) & (in(x.x, p) == x(p)), "building after a failure is right");
    SYM_REACH("failed"); SYM_REACH("end"); return;
  } else { d = shape_of(mode, 16); h = mk(o, d); if (__sym_param("REWRITE", 0)) h = sdd::rewrite(o, h); }
  const D keep = x.x + cube_rec(o, std::array<unsigned, 3>{{8, 8, 8}}.data()); const auto in_keep = [&](const unsigned* q) { bool r = true; for (unsigned l = 0; l < NL(); ++l) r = r & (q[l] == 8); return r | x(q); };
  const unsigned fail = clash ? 0 : 1 + sym_pick("fail", K);
  const auto attempt = [&]() { CALLS() = 0; FAILAT() = fail; int r = 0; try { const D y = h(o, x.x); r = 0; } catch (const boom&) { r = 1; } catch (const sdd::top<C>&) { r = 2; } FAILAT() = 0; return r; };
  const int first = attempt();
  SYM_ASSERT(clash ? first == 2 : first == (CALLS() >= fail ? 1 : 0), "the exception reaches the caller");
  if (first == 0) { SYM_REACH("unfailed"); SYM_REACH("end"); return; }
  SYM_REACH("failed");
  SYM_ASSERT((in(x.x, p) == x(p)) & (in(keep, p) == in_keep(p)), "existing SDDs are unchanged by a failed evaluation");
  m.reset_hom_cache(); const auto live = __sym_live_blocks(), nodes = (unsigned long)m.sdd_stats().size;
  const int second = attempt();
  SYM_ASSERT(second == first, "the evaluation fails in the same way again");
  m.reset_hom_cache();
  SYM_ASSERT(m.sdd_stats().size == nodes && __sym_live_blocks() <= live + 3, "a failed evaluation keeps no memory");
  const int third = attempt(); // from a cache holding what the failed evaluation left
  if (clash) SYM_ASSERT(third == 2, "an incompatible evaluation always fails");
  else {
    const D r = h(o, x.x); // with whatever the failed evaluations cached
    m.reset_hom_cache();
    SYM_ASSERT(h(o, x.x) == r, "the result after a failure is the result of a fresh evaluation");
    if (mode == 100) {
      const pred all = x; bool ex = false; // the increment of every level: p is the image of p - 1
      unsigned q[3]; bool ok = true; for (unsigned l = 0; l < NL(); ++l) { ok = ok & (p[l] != 1); q[l] = p[l] >> 1; } ex = ok & x(q);
      SYM_ASSERT(in(r, p) == ex, "an evaluation after a failure is right");
    } else if (d.k != H::FIX) SYM_ASSERT(in(r, p) == img(d, x, p), "an evaluation after a failure is right");
    else {
      const Hom g = mk(o, d.sub[0]); D y = x.x, z = g(o, y);
      for (unsigned i = 0; i < 64 && z != y; ++i) { y = z; z = g(o, y); }
      SYM_ASSERT(r == y, "a fixpoint after a failure is right");
    }
  }
  const D w = keep - x.x;
  SYM_ASSERT(in(w, p) == (in_keep(p) & !x(p)), "operations after a failure are right");
  __symx_observe(w.empty());
  SYM_REACH("end");
}
