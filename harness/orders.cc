// C27-C30: orders, their builders and the strategies.  Shapes: every forest of at most N levels (chosen symbolically); identifiers are
// symbolic 32-bit values, with a constant hash, so that which of them are equal is decided by the solver.
#include "sym.h"
#include <functional>
#include "sdd/sdd.hh"
#include "sdd/order/strategies/flatten.hh"
#include "sdd/order/strategies/identifiers_per_hierarchy.hh"
#include <vector>
struct Id { unsigned v; friend bool operator==(Id a, Id b) noexcept { return a.v == b.v; } friend bool operator<(Id a, Id b) noexcept { return a.v < b.v; } };
static unsigned printed; static unsigned nprinted;
inline std::ostream& operator<<(std::ostream& o, Id a) { printed = a.v; ++nprinted; return o; }
namespace std { template <> struct hash<Id> { size_t operator()(Id) const noexcept { return 7; } }; }
struct C : sdd::default_configuration { using Identifier = Id; using Values = sdd::values::bitset<8>; };
using OB = sdd::order_builder<C>; using Ord = sdd::order<C>; using OI = sdd::order_identifier<C>;

#include "forest.h"
// a builder is the forest (one formula for all the identifiers; the shape is concrete)
static bool same(const OB& b, const F& f, unsigned k = 0) {
  if (k == f.size()) return b.empty();
  if (b.empty()) return false;
  bool r = f[k].art ? b.identifier().artificial() != 0 : (b.identifier().artificial() == 0) & (b.identifier().user().v == f[k].id);
  if (b.nested().empty() != f[k].sub.empty()) return false;
  if (!f[k].sub.empty()) r = r & same(b.nested(), f[k].sub);
  return r & same(b.next(), f, k + 1);
}
static unsigned fsize(const F& f) { unsigned n = 0; for (auto& t : f) n += 1 + fsize(t.sub); return n; }
static void leaves(const F& f, std::vector<unsigned>& out) { for (auto& t : f) if (t.sub.empty()) out.push_back(t.id); else leaves(t.sub, out); }
static void check_builder(const OB& b, const F& f) {
  SYM_ASSERT(same(b, f), "the builder holds the expected tree");
  SYM_ASSERT(b.size() == fsize(f), "size() counts the identifiers");
  if (!f.empty()) SYM_ASSERT(b.height() == f.size(), "height() counts the levels of the list");
}

static void walk(const Ord& o, int i, const std::vector<flatn>& n) {
  SYM_ASSERT(o.empty() == (i < 0), "an order has the shape of its builder");
  if (i < 0 || o.empty()) return;
  SYM_ASSERT(o.position() == n[i].pos, "positions are given in depth-first order");
  SYM_ASSERT(o.variable() == n[i].var, "variables of a list go down to zero");
  SYM_ASSERT(n[i].art ? o.identifier().is_artificial() : !o.identifier().is_artificial() & (o.identifier().user().v == n[i].id), "an order keeps the identifiers");
  walk(o.nested(), n[i].nested, n);
  walk(o.next(), n[i].next, n);
}
static bool anc(const std::vector<flatn>& n, int up, int x) { for (int p = n[x].parent; p >= 0; p = n[p].parent) if (p == up) return true; return false; }

static void part_order(unsigned N) { // C27
  const unsigned n = sym_pick("n", N + 1);
  const auto d = pick_shape(n);
  std::vector<unsigned> ids; for (unsigned i = 0; i < n; ++i) ids.push_back(sym_u32("id"));
  SYM_ASSUME(distinct(ids));
  unsigned i = 0; F f = from_depths(d, ids, i, 0);
  if (n > 1 && !f[0].sub.empty() && sym_pick("art", 2)) { f[0].art = true; SYM_REACH("artificial"); }
  const OB b = build(f); const Ord o(b);
  std::vector<flatn> m; const int h = lay(f, -1, m);
  walk(o, h, m);
  for (unsigned x = 0; x < n; ++x) {
    if (!m[x].art) {
      const auto& nd = o.node(Id{m[x].id});
      SYM_ASSERT(nd.position() == x, "an identifier is found at its own node");
      SYM_ASSERT(nd.variable() == m[x].var, "the node of an identifier has its variable");
      const auto& path = nd.path(); std::vector<unsigned> up; for (int p = m[x].parent; p >= 0; p = m[p].parent) up.insert(up.begin(), (unsigned)p);
      SYM_ASSERT(std::vector<unsigned>(path.begin(), path.end()) == up, "the path to a node names the levels around it, outermost first");
    }
    SYM_ASSERT(o.node_from_position(x).position() == x, "a position designates its node");
    for (unsigned y = 0; y < n; ++y) SYM_ASSERT(o.contains(y, x) == anc(m, (int)y, (int)x), "contains() tells which levels lie inside which");
  }
  std::vector<unsigned> lv; leaves(f, lv);
  std::vector<Id> out; o.flat(std::back_inserter(out));
  SYM_ASSERT(out.size() == lv.size(), "flat() lists every flat identifier once");
  for (unsigned k = 0; k < lv.size() && k < out.size(); ++k) SYM_ASSERT(out[k].v == lv[k], "flat() lists the flat identifiers in order");
  std::vector<Id> arr(lv.size() + 2, Id{0}); Id* pe = arr.data(); o.flat(pe);
  for (unsigned k = 0; k < lv.size(); ++k) SYM_ASSERT(arr[k].v == lv[k], "flat() lists the flat identifiers in order, through any output iterator");
  // equality
  Ord copy = o; SYM_ASSERT(copy == o, "a copy of an order is equal to it");
  if (n && !f[0].art) {
    std::vector<unsigned> ids2; bool all = true;
    for (unsigned k = 0; k < n; ++k) { ids2.push_back(k < 2 ? sym_u32("id2") : ids[k]); all = all & (ids2[k] == ids[k]); }
    SYM_ASSUME(distinct(ids2));
    unsigned j = 0; const Ord o2(build(from_depths(d, ids2, j, 0)));
    const bool eq = o == o2;
    SYM_ASSERT(eq == all, "two orders of the same shape are equal exactly when their identifiers are");
    if (eq) { SYM_ASSERT(std::hash<Ord>()(o) == std::hash<Ord>()(o2), "equal orders hash equally"); SYM_REACH("same"); }
    // another shape with the same identifiers
    auto d2 = d; const unsigned w = sym_pick("w", n); const unsigned nd = sym_pick("nd", w == 0 ? 1 : d[w - 1] + 2);
    bool ok = nd != d[w]; d2[w] = nd; for (unsigned k = 1; k < n; ++k) ok = ok & (d2[k] <= d2[k - 1] + 1);
    if (ok) { unsigned q = 0; SYM_ASSERT(!(Ord(build(from_depths(d2, ids, q, 0))) == o), "orders of different shapes differ"); SYM_REACH("shape"); }
  }
}
static void part_errors(unsigned N) { // C28
  const unsigned n = 1 + sym_pick("n", N);
  const auto d = pick_shape(n);
  std::vector<unsigned> ids; for (unsigned i = 0; i < n; ++i) ids.push_back(sym_u32("id"));
  unsigned i = 0; F f = from_depths(d, ids, i, 0);
  const bool art = n > 1 && !f[0].sub.empty() && sym_pick("art", 2);
  if (art) f[0].art = true; // an artificial level is no duplicate of anything
  std::vector<unsigned> u(ids.begin() + (art ? 1 : 0), ids.end());
  const bool dis = distinct(u);
  const OB b = build(f);
  bool thrown = false;
  try { const Ord o(b); }
  catch (sdd::duplicate_identifier_error<C>& e) {
    thrown = true; nprinted = 0; (void)e.what();
    SYM_ASSERT(nprinted >= 1, "the duplicate error names an identifier");
    const unsigned p = printed; unsigned c = 0; for (unsigned x : u) c += (x == p);
    SYM_ASSERT(c >= 2, "the duplicate error names an identifier that occurs twice");
    SYM_REACH("duplicate");
  }
  SYM_ASSERT(thrown == !dis, "an order is refused exactly when an identifier occurs twice");
  if (thrown) return;
  const Ord o(b); const unsigned q = sym_u32("q"); bool has = false; for (unsigned x : u) has = has | (x == q);
  bool nf = false; unsigned got = 0; bool pos = false;
  try { const auto& nd = o.node(Id{q}); got = nd.identifier().user().v; pos = nd.identifier().is_artificial(); }
  catch (sdd::identifier_not_found_error<C>& e) { nf = true; nprinted = 0; (void)e.what(); SYM_ASSERT((nprinted >= 1) & (printed == q), "the not-found error names the identifier"); SYM_REACH("notfound"); }
  SYM_ASSERT(nf == !has, "a lookup fails exactly when the identifier is not in the order");
  if (!nf) { SYM_ASSERT((got == q) & !pos, "a lookup gives the node of that identifier"); SYM_REACH("found"); }
}
static void part_builders(unsigned steps) { // C29
  OB b[3]; F m[3];
  for (unsigned s = 0; s < steps; ++s) {
    const unsigned act = sym_pick("act", __sym_param("ACTS", 8)), x = sym_pick("x", 2), y = sym_pick("y", 3); const unsigned id = sym_u32("id"), id2 = sym_u32("id");
    switch (act) {
      case 0: { OB& r = b[x].push(Id{id}); SYM_ASSERT(&r == &b[x], "push returns the builder"); m[x].insert(m[x].begin(), T{id, false, {}}); break; }
      case 1: { const F sub = m[y]; b[x].push(Id{id}, b[y]); m[x].insert(m[x].begin(), T{id, false, sub}); break; }
      case 2: { const F t = m[y]; const OB r = b[x] << b[y]; m[x].insert(m[x].end(), t.begin(), t.end()); check_builder(r, m[x]); break; }
      case 3: b[x] = b[y]; m[x] = m[y]; break;
      case 4: { b[x] = OB{Id{id}, Id{id2}}; m[x] = F{T{id, false, {}}, T{id2, false, {}}}; break; }
      case 5: { const F sub = m[y]; const OB t(Id{id}, b[y]); b[x] = t; m[x] = F{T{id, false, sub}}; break; }
      case 6: { if (m[y].empty()) break; const OB t = b[y].next(); const F r(m[y].begin() + 1, m[y].end()); b[x] = t; m[x] = r; break; }
      default: { const unsigned l[3] = {id, id2, id}; std::vector<Id> v; for (unsigned k = 0; k < y + 1; ++k) v.push_back(Id{l[k]}); b[x] = OB(v.begin(), v.end()); m[x].clear(); for (auto& e : v) m[x].push_back(T{e.v, false, {}}); }
    }
    for (unsigned k = 0; k < 3; ++k) check_builder(b[k], m[k]);
  }
}
static bool capped(const OB& b, unsigned nb, const F&) { // the list itself and every artificial level have at most nb entries
  unsigned h = 0; bool r = true;
  for (OB c = b; !c.empty(); c = c.next()) { ++h; if (c.identifier().is_artificial()) r = r && !c.nested().empty() && capped(c.nested(), nb, {}); }
  return r && h <= nb;
}
static void strip(const OB& b, F& out) { // without the artificial levels
  for (OB c = b; !c.empty(); c = c.next()) { if (c.identifier().is_artificial()) strip(c.nested(), out); else { F s; strip(c.nested(), s); out.push_back(T{c.identifier().user().v, false, s}); } }
}
static bool sameF(const F& a, const F& b) { if (a.size() != b.size()) return false; bool r = true; for (unsigned i = 0; i < a.size(); ++i) r = r & (a[i].id == b[i].id) & sameF(a[i].sub, b[i].sub); return r; }
static void part_strategies(unsigned N, unsigned L) { // C30
  const unsigned kind = sym_pick("kind", 3);
  F f; std::vector<unsigned> ids;
  if (kind < 2) { const unsigned n = sym_pick("n", N + 1); const auto d = pick_shape(n); for (unsigned i = 0; i < n; ++i) ids.push_back(sym_u32("id")); unsigned i = 0; f = from_depths(d, ids, i, 0); }
  else { const unsigned n = sym_pick("n", L + 1); for (unsigned i = 0; i < n; ++i) { ids.push_back(sym_u32("id")); f.push_back(T{ids.back(), false, {}}); } }
  const OB b = build(f);
  if (kind == 0) {
    if (!f.empty() && !f[0].sub.empty() && sym_pick("art", 2)) f[0].art = true;
    std::vector<unsigned> lv; leaves(f, lv); F g; for (unsigned x : lv) g.push_back(T{x, false, {}});
    const OB b0 = build(f);
    check_builder(sdd::flatten<C>()(b0), g);
    SYM_ASSERT(same(b0, f), "flattening leaves its operand alone");
    SYM_REACH("flatten");
  } else {
    const unsigned nb = sym_pick("nb", 6);
    const OB r = sdd::identifiers_per_hierarchy<C>(nb)(b);
    if (nb >= 2) { SYM_ASSERT(capped(r, nb, f), "grouping leaves at most the given number of entries per level"); SYM_REACH("grouped"); }
    F g; strip(r, g);
    SYM_ASSERT(sameF(f, g), "grouping keeps the identifiers, in order");
    SYM_ASSERT(same(b, f), "grouping leaves its operand alone");
  }
}
void harness_main() {
  const unsigned part = __sym_param("PART", 0), N = __sym_param("N", 4);
  switch (part) { case 0: part_order(N); break; case 1: part_errors(N); break; case 2: part_builders(N); break; default: part_strategies(N, __sym_param("L", 8)); }
  SYM_REACH("end");
}
