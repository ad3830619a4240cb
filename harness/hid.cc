// C19: handles identify operations.  Every pair among a family of homomorphisms built twice; simplifications keep the meaning.
#include "hb.h"
void harness_main() {
  auto m = sdd::init(C{});
  const unsigned shape = __sym_param("SHAPE", 1); SH() = shape; NL() = order_levels(shape);
  const Ord o(mk_order(shape)), o2(mk_order(shape)); // two equal orders
  const unsigned part = __sym_param("PART", 0);
  const Hom I = sdd::id<C>();
  if (part == 0) { // functions: equal exactly when level and function are
    const unsigned la = sym_pick("la", NL()), lb = sym_pick("lb", NL());
    const unsigned ka = sym_pick("ka", 3), kb = sym_pick("kb", 3); const unsigned K[3] = {0, 1, 2};
    const rel fa = mk_rel(K[ka]), fb = mk_rel(K[kb]);
    const Hom a = sdd::function<C>(o, la, rel(fa)), b = sdd::function<C>(o2, lb, rel(fb));
    const bool same = (la == lb) & (fa == fb);
    SYM_ASSERT((a == b) == same, "two functions are one handle exactly when level and function are equal");
    SYM_ASSERT((a != b) == !same, "!= is the negation of ==");
    if (a == b) { SYM_REACH("same"); SYM_ASSERT(std::hash<Hom>()(a) == std::hash<Hom>()(b), "equal homomorphisms hash equally"); } else SYM_REACH("different");
    SYM_ASSERT(!(a < b) | !(b < a), "< is asymmetric"); SYM_ASSERT((a < b) | (b < a) | (a == b), "< is total");
  } else if (part == 1) { // combinations of two functions, by kind of combination
    const unsigned l = sym_pick("l", NL()); const rel f = mk_rel(2), g = mk_rel(0);
    auto all = [&](const Ord& ord) {
      const Hom a = sdd::function<C>(ord, 0, rel(f)), b = sdd::function<C>(ord, l, rel(g)); const D c = [&] { unsigned mm[3] = {1, 2, 4}; return cube_rec(ord, mm); }();
      std::vector<Hom> v{I, a, b, sdd::composition(a, b), sdd::composition(b, a), sdd::sum<C>(ord, {a, b}), sdd::sum<C>(ord, {I, a}), sdd::sum<C>(ord, {I, b}), sdd::fixpoint(sdd::sum<C>(ord, {I, a})), sdd::fixpoint(a),
        sdd::if_then_else(b, a, I), sdd::if_then_else(b, I, a), sdd::intersection<C>(ord, {b, sdd::function<C>(ord, 1, rel(g))}), sdd::constant<C>(c), sdd::cons(ord, b4(3), I), sdd::cons(ord, b4(5), I), sdd::cons(ord, b4(3), a), sdd::cons(ord.next(), b4(3), I)};
      return v; };
    const auto x = all(o), y = all(o2);
    for (unsigned i = 0; i < x.size(); ++i) SYM_ASSERT(x[i] == y[i], "the same homomorphism built twice, from equal orders, is the same handle");
    // kinds of combinations never mix
    const unsigned P[][2] = {{3, 5}, {3, 8}, {5, 8}, {5, 10}, {10, 11}, {3, 10}, {8, 9}, {12, 5}, {13, 14}, {14, 15}, {14, 16}, {14, 17}, {0, 8}, {0, 13}, {0, 14}, {1, 13}, {6, 8}, {3, 12}};
    for (auto& q : P) SYM_ASSERT(x[q[0]] != x[q[1]], "different combinations are different handles");
    SYM_REACH("same");
  } else { // simplifications: the handle the constructors give behaves as the unsimplified description
    const unsigned l0 = sym_pick("l0", NL()), l1 = sym_pick("l1", NL());
    const H f = h_fun(l0, mk_rel(5)), g = h_fun(l1, mk_rel(3)), s = h_fun(l0, mk_rel(0)), t = h_fun(l1, mk_rel(0));
    const Hom F = mk(o, f), G = mk(o, g), S = mk(o, s), T = mk(o, t);
    std::vector<std::pair<Hom, H>> c;
    c.emplace_back(sdd::composition(I, F), f); c.emplace_back(sdd::composition(F, I), f); c.emplace_back(sdd::composition(I, I), h_id());
    c.emplace_back(sdd::sum<C>(o, {F}), f); c.emplace_back(sdd::sum<C>(o, {F, F}), f); c.emplace_back(sdd::sum<C>(o, {F, G, F}), h_n(H::SUM, {f, g})); c.emplace_back(sdd::sum<C>(o, {I, I}), h_id());
    c.emplace_back(sdd::sum<C>(o, {sdd::sum<C>(o, {F, I}), G}), h_n(H::SUM, {f, h_id(), g}));
    c.emplace_back(sdd::sum<C>(o, {G, sdd::sum<C>(o, {F, G})}), h_n(H::SUM, {g, f}));
    c.emplace_back(sdd::fixpoint(I), h_id());
    c.emplace_back(sdd::intersection<C>(o, {S}), s); c.emplace_back(sdd::intersection<C>(o, {S, S}), s); c.emplace_back(sdd::intersection<C>(o, {S, sdd::intersection<C>(o, {T, I})}), h_n(H::INTER, {s, t, h_id()}));
    c.emplace_back(sdd::composition(sdd::composition(F, G), S), h_n(H::COMP, {f, h_n(H::COMP, {g, s})}));
    c.emplace_back(sdd::composition(S, T), h_n(H::COMP, {s, t})); c.emplace_back(sdd::composition(T, S), h_n(H::INTER, {s, t}));
    c.emplace_back(sdd::composition(F, sdd::composition(G, F)), h_n(H::COMP, {f, h_n(H::COMP, {g, f})}));
    c.emplace_back(sdd::if_then_else(I, F, G), f);
    const auto& k = c[sym_pick("which", c.size())];
    const operand x = mk_operand(o, 2, 0b110001, 0b111011);
    unsigned p[3] = {0, 0, 0}; for (unsigned l = 0; l < NL(); ++l) p[l] = onehot("p");
    const D r = k.first(o, x.x);
    SYM_ASSERT(in(r, p) == img(k.second, x, p), "a simplified homomorphism keeps its meaning");
    __symx_observe(r.empty());
  }
  SYM_REACH("end");
}
