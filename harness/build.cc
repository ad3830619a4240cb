// C08: construction of SDDs: from a variable, a valuation and a successor, and from an order and an initializer.
#include "hh.h"
using C = CFG; using D = sdd::SDD<C>; using Vals = C::Values;
using FSV = sdd::values::flat_set<V>; using BSV = sdd::values::bitset<8>;
static void ins(FSV& s) { s.insert(V{1}); }
static void ins(BSV& s) { s.insert(1); }
struct sv { Vals v; unsigned mask; unsigned w[2]; unsigned n; };
static FSV mk(sv& s, const FSV*) { s.n = sym_pick("n", 3); for (unsigned i = 0; i < s.n; ++i) s.w[i] = sym_u8("a"); return s.n == 0 ? FSV() : s.n == 1 ? FSV{V{s.w[0]}} : FSV{V{s.w[0]}, V{s.w[1]}}; }
static BSV mk(sv& s, const BSV*) { s.mask = sym_u8("a"); return BSV(std::bitset<8>(s.mask)); }
static sv any() { sv s{}; s.v = mk(s, (Vals*)nullptr); return s; }
static bool has(const sv& s, unsigned p, const FSV*) { bool r = false; for (unsigned i = 0; i < s.n; ++i) r = r | (s.w[i] == p); return r; }
static bool has(const sv& s, unsigned p, const BSV*) { return ((s.mask >> (p & 7)) & 1) != 0; }
static bool has(const sv& s, unsigned p) { return has(s, p, (Vals*)nullptr); }
static unsigned point(const FSV*) { return sym_u8("p"); }
static unsigned point(const BSV*) { return sym_below("p", 8); }
static unsigned var_of(const D& x) { struct vis { unsigned operator()(const sdd::zero_terminal<C>&) const { return ~0u; } unsigned operator()(const sdd::one_terminal<C>&) const { return ~0u; } unsigned operator()(const sdd::flat_node<C>& n) const { return n.variable(); } unsigned operator()(const sdd::hierarchical_node<C>& n) const { return n.variable(); } }; return sdd::visit(vis{}, x); }

static void part_nodes() {
  unsigned p[3]; for (auto& x : p) x = point((Vals*)nullptr);
  const sv a = any(), b = any();
  const unsigned var = sym_pick("var", 3); const unsigned s = sym_pick("succ", 3);
  const D succ = s == 0 ? sdd::zero<C>() : s == 1 ? sdd::one<C>() : D(0, b.v, sdd::one<C>());
  const auto in_succ = [&](const unsigned* q) { return s == 0 ? false : s == 1 ? true : has(b, q[0]); };
  const unsigned how = sym_pick("how", 4);
  D x; Vals tmp = a.v;
  switch (how) {
    case 0: x = D(var, a.v, succ); break;
    case 1: x = D(var, std::move(tmp), succ); break;
    case 2: { const D nested(1, a.v, D(0, b.v, sdd::one<C>())); x = D(var, nested, succ); break; }
    default: { const unsigned t = sym_pick("val", 2); x = D(var, t ? sdd::one<C>() : sdd::zero<C>(), succ); SYM_ASSERT((t && !succ.empty()) ? !x.empty() : x.empty(), "a level over a terminal valuation"); SYM_REACH("end"); return; }
  }
  if (how < 2) {
    SYM_ASSERT(member(x, p) == (has(a, p[0]) & in_succ(p + 1)), "a flat level holds a value of the valuation then an assignment of the successor");
    SYM_ASSERT(x == D(var, a.v, succ), "building a level twice gives the same SDD");
  } else SYM_ASSERT(member(x, p) == (has(a, p[0]) & has(b, p[1]) & in_succ(p + 2)), "a nested level holds an assignment of the valuation then one of the successor");
  if (!x.empty()) { SYM_ASSERT(var_of(x) == var, "a level has the variable given"); SYM_REACH("nonempty"); } else SYM_REACH("empty");
  check_canonical(x);
}
struct T { unsigned id; bool art; std::vector<T> sub; };
static std::vector<T> forest(const std::vector<unsigned>& d, unsigned& i, unsigned lvl) { std::vector<T> r; while (i < d.size() && d[i] == lvl) { T t{10 * (5 - i) + 3, false, {}}; ++i; t.sub = forest(d, i, lvl + 1); r.push_back(t); } return r; }
static sdd::order_builder<C> build(const std::vector<T>& f) {
  sdd::order_builder<C> b;
  for (auto it = f.rbegin(); it != f.rend(); ++it) { if (it->art) b.push(sdd::order_identifier<C>(), build(it->sub)); else if (it->sub.empty()) b.push(it->id); else b.push(it->id, build(it->sub)); }
  return b;
}
static void leaves(const std::vector<T>& f, std::vector<unsigned>& out) { for (auto& t : f) if (t.sub.empty()) out.push_back(t.id); else leaves(t.sub, out); }
// same levels, same variables
static void shape_rec(const D& x, const sdd::order<C>& o) {
  struct vis { const D& x; const sdd::order<C>& o;
    void operator()(const sdd::zero_terminal<C>&) const { SYM_ASSERT(false, "a zero below a level"); }
    void operator()(const sdd::one_terminal<C>&) const { SYM_ASSERT(o.empty(), "the terminal lies below the last level"); }
    void operator()(const sdd::flat_node<C>& n) const { SYM_ASSERT(!o.empty() && o.nested().empty() && n.variable() == o.variable(), "a flat identifier has a flat level with its variable"); if (o.empty()) return; SYM_ASSERT(n.size() == 1, "one arc per level"); for (auto& a : n) shape_rec(a.successor(), o.next()); }
    void operator()(const sdd::hierarchical_node<C>& n) const { SYM_ASSERT(!o.empty() && !o.nested().empty() && n.variable() == o.variable(), "a hierarchical identifier has a nested level with its variable"); if (o.empty() || o.nested().empty()) return; for (auto& a : n) { shape_rec(a.valuation(), o.nested()); shape_rec(a.successor(), o.next()); } } };
  sdd::visit(vis{x, o}, x);
}
static void part_order(unsigned N) {
  const unsigned n = sym_pick("n", N + 1);
  std::vector<unsigned> d; for (unsigned i = 0; i < n; ++i) d.push_back(i == 0 ? 0 : sym_pick("depth", d.back() + 2));
  unsigned i = 0; auto f = forest(d, i, 0);
  if (n > 1 && !f[0].sub.empty() && sym_pick("art", 2)) f[0].art = true;
  const sdd::order<C> o(build(f)); std::vector<unsigned> lv; leaves(f, lv);
  std::vector<sv> vals; std::vector<unsigned> p; const unsigned few = __sym_param("FEW", 8);
  for (unsigned k = 0; k < lv.size(); ++k) { vals.push_back(k < few ? any() : sv{}); if (k >= few) { vals[k].mask = 2; vals[k].n = 1; vals[k].w[0] = 1; ins(vals[k].v); } p.push_back(point((Vals*)nullptr)); }
  unsigned calls = 0;
  const D x(o, [&](unsigned id) -> Vals { ++calls; for (unsigned k = 0; k < lv.size(); ++k) if (lv[k] == id) return vals[k].v; SYM_ASSERT(false, "the initializer is asked for a flat identifier"); return Vals(); });
  bool in = true; for (unsigned k = 0; k < lv.size(); ++k) in = in & has(vals[k], p[k]);
  p.push_back(0);
  SYM_ASSERT(member(x, p.data()) == in, "an SDD built from an order holds exactly the product of the initial values");
  if (x.empty()) { SYM_REACH("empty"); return; }
  SYM_REACH("nonempty"); shape_rec(x, o);
}
static void part_vars() { // levels that differ in their variable only
  const unsigned v1 = sym_u8("var"), v2 = sym_u8("var"); const sv a = any(); const D one = sdd::one<C>(), in(0, a.v, one); SYM_ASSUME(!in.empty());
  unsigned p[2] = {point((Vals*)nullptr), point((Vals*)nullptr)};
  const unsigned how = sym_pick("how", 2);
  const D x = how ? D(v1, in, in) : D(v1, a.v, one), y = how ? D(v2, in, in) : D(v2, a.v, one);
  SYM_ASSERT((x == y) == (v1 == v2), "two levels with the same arcs are equal exactly when their variables are");
  SYM_ASSERT((var_of(x) == v1) & (var_of(y) == v2), "every level keeps its own variable");
  SYM_ASSERT((member(y, p) == (how ? has(a, p[0]) & has(a, p[1]) : has(a, p[0]))), "levels with other variables do not disturb each other");
  if (x == y) SYM_REACH("same"); else SYM_REACH("other");
}
void harness_main() {
  auto m = sdd::init(C{});
  if (__sym_param("PART", 0) == 2) part_vars(); else if (__sym_param("PART", 0) == 0) part_nodes(); else part_order(__sym_param("N", 3));
  SYM_REACH("end");
}
