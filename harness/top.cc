// C05: incompatible operands raise the error, and change nothing.
#include "hh.h"
using C = CFG; using D = sdd::SDD<C>; using Vals = C::Values; using Top = sdd::top<C>;
using FSV = sdd::values::flat_set<V>; using BSV = sdd::values::bitset<8>;
struct sv { Vals v; unsigned m; };
static FSV mk(unsigned m, const FSV*) { return FSV{V{m}}; }
static BSV mk(unsigned m, const BSV*) { return BSV(std::bitset<8>(m)); }
static sv any(unsigned l) { sv s; s.m = sym_u8("a"); if (std::is_same<Vals, BSV>::value) { if (l) SYM_ASSUME((s.m == 1) | (s.m == 4)); else SYM_ASSUME(s.m != 0); } else SYM_ASSUME((s.m >> 7) == l); s.v = mk(s.m, (Vals*)nullptr); return s; }
static bool meet(const sv& a, const sv& b) { return std::is_same<Vals, BSV>::value ? (a.m & b.m) != 0 : a.m == b.m; }
static bool has(const sv& a, unsigned p) { return std::is_same<Vals, BSV>::value ? ((a.m >> (p & 7)) & 1) != 0 : a.m == p; }
// the structures: every one holds the assignments v[0] (x v[1])
static const unsigned NS = 10;
static D mks(unsigned s, const sv* v) {
  const D one = sdd::one<C>();
  switch (s) {
    case 0: return one;
    case 1: return D(0, v[0].v, one);
    case 2: return D(1, v[0].v, D(0, v[1].v, one));
    case 3: return D(0, D(0, v[0].v, one), one);
    case 4: return D(1, D(0, v[0].v, one), D(0, v[1].v, one));
    case 5: return D(1, v[0].v, D(0, D(0, v[1].v, one), one));
    case 6: return D(1, D(0, D(0, v[0].v, one), one), D(0, v[1].v, one));
    case 7: return D(1, D(0, v[0].v, one), D(0, D(0, v[1].v, one), one));
    case 8: return D(1, v[0].v, one);                                     // stops earlier than 2
    default: return D(1, D(1, v[0].v, one), D(0, v[1].v, one));           // another variable inside
  }
}
static unsigned nl(unsigned s) { return s == 0 ? 0 : (s == 1 || s == 3 || s == 8) ? 1 : 2; }
// root: 0 terminal, 1 flat variable 0, 2 flat variable 1, 3 nested variable 0, 4 nested variable 1
static unsigned root(unsigned s) { static const unsigned r[NS] = {0, 1, 2, 3, 4, 2, 4, 4, 2, 4}; return r[s]; }
// what follows the first level, and what lies inside it
static unsigned tail(unsigned s) { static const unsigned r[NS] = {9, 0, 1, 0, 1, 3, 1, 3, 0, 1}; return r[s]; }
static unsigned inside(unsigned s) { static const unsigned r[NS] = {0, 0, 0, 1, 1, 0, 3, 1, 0, 2}; return r[s]; }
// is the error due, for two non-empty operands of structures s and t?
static bool due(unsigned s, const sv* a, unsigned t, const sv* b) {
  if (root(s) != root(t)) return true;
  if (inside(s) != inside(t)) return true;
  return tail(s) != tail(t) ? meet(a[0], b[0]) : false;
}
static D apply(unsigned op, const D& x, const D& y, const D& z) {
  switch (op) { case 0: return x + y; case 1: return x & y; case 2: return x - y; case 3: return sdd::sum<C>({z, x, y}); case 4: return sdd::sum<C>({y, z, x}); case 5: return sdd::intersection<C>({z, x, y}); default: return sdd::intersection<C>({y, z, x}); }
}
void harness_main() {
  auto m = sdd::init(C{});
  const unsigned s = sym_pick("s", NS), t = sym_pick("t", NS), op = __sym_param("OP0", 0) + sym_pick("op", __sym_param("OPS", 5)); const bool sw = sym_pick("swap", 2);
  SYM_ASSUME(s < t);
  const sv a[2] = {any(0), any(1)}, b[2] = {any(0), any(1)}, bc = std::is_same<Vals, BSV>::value ? sv{mk(15, (Vals*)nullptr), 15} : any(0), c[2] = {bc, op > 2 ? any(1) : a[1]};
  const bool wide = __sym_param("WIDE", 0); // the left operand holds the assignments of one more cube
  const sv e2[2] = {c[0], op > 2 ? c[1] : wide ? any(1) : a[1]};
  const bool late = __sym_param("LATE", 0); // the odd one of the operands is created last, or second
  D x = mks(sw ? t : s, sw ? b : a), y = late ? sdd::one<C>() : mks(sw ? s : t, sw ? a : b); const D more = mks(sw ? t : s, e2);
  if (wide) x = sdd::sum<C>({x, more});
  const D z = op > 4 ? sdd::sum<C>({x, more}) : op > 2 ? mks(sw ? t : s, c) : sdd::one<C>(); // z has the structure of x
  if (late) y = mks(sw ? s : t, sw ? a : b);
  unsigned p[2] = {sym_u8("p"), sym_u8("p")};
  const auto in = [&](unsigned st, const sv* v) { bool r = true; for (unsigned l = 0; l < nl(st); ++l) r = r & has(v[l], p[l]); return r; };
  const bool ina = in(s, a) | (wide & !sw & in(s, e2)), inb = in(t, b) | (wide & sw & in(t, e2));
  bool d = due(s, a, t, b);
  if (wide) d = d | (sw ? due(s, a, t, e2) : due(s, e2, t, b));
  const bool maybe = op > 4 ? d | (sw ? due(s, a, t, e2) : due(s, e2, t, b)) : d; // several operands are intersected in any order
  if (op > 2 && op < 5) d = d | (sw ? due(s, a, t, c) : due(s, c, t, b)); // z is combined with y too
  bool thrown = false;
  try { const D r = apply(op, x, y, z); }
  catch (const Top& e) { thrown = true; SYM_ASSERT(!e.lhs().empty() && !e.rhs().empty() && e.lhs() != e.rhs(), "the error carries two different operands"); }
  if (op > 4) SYM_ASSERT((!d | thrown) & (!thrown | maybe), "intersecting incompatible SDDs raises the error, intersecting compatible parts does not");
  else SYM_ASSERT(thrown == d, "combining incompatible SDDs raises the error, combining compatible parts does not");
  if (!thrown) { SYM_REACH("fine"); SYM_REACH("end"); return; }
  // nothing has changed
  SYM_ASSERT((member(sw ? y : x, p) == ina) & (member(sw ? x : y, p) == inb), "operands are unchanged by a failed operation");
  const auto live = __sym_live_blocks(), nodes = (unsigned long)m.sdd_stats().size;
  bool again = false; try { const D r = apply(op, x, y, z); } catch (const Top&) { again = true; }
  SYM_ASSERT(again, "a failed operation fails again");
  SYM_ASSERT(m.sdd_stats().size == nodes && __sym_live_blocks() <= live + 3, "a failed operation keeps no memory");
  { D w = x; bool th = false; try { if (op == 1) w &= y; else if (op == 2) w -= y; else if (op == 0) w += y; else th = true; } catch (const Top&) { th = true; } SYM_ASSERT(th && w == x, "a failed compound assignment leaves its target alone"); }
  // later operations are right, on the structure of the left operand
  const D xa = wide && !sw ? sdd::sum<C>({mks(s, a), more}) : mks(s, a), yb = wide && sw ? sdd::sum<C>({mks(t, b), more}) : mks(t, b);
  const unsigned st = sw ? t : s; const sv* v = sw ? b : a;
  if (st) {
    const sv e[2] = {c[0], v[1]}; const D w = mks(st, e); const bool iv = sw ? inb : ina, ie = in(st, e); const unsigned later = (op + 1) % 3;
    SYM_ASSERT(member(apply(later, x, w, x), p) == (later == 0 ? iv | ie : later == 1 ? iv & ie : iv & !ie), "later operations are right");
  }
  SYM_ASSERT(xa == (sw ? y : x) && yb == (sw ? x : y), "rebuilding an operand gives the same handle");
  SYM_REACH("raised"); SYM_REACH("end");
}
