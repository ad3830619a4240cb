// Shared by the homomorphism harnesses.  Domain: four values per flat level (bitset<4>, every mask symbolic), at most three flat
// levels.  The meaning of a homomorphism is given point by point, as a formula over the operand's masks, the user relations and a symbolic point.
#pragma once
#include "sym.h"
#include "sdd/sdd.hh"
#include <vector>
#include <deque>
#include <array>
#include <functional>
namespace std { template <> struct hash<sdd::values::bitset<4>> { size_t operator()(const sdd::values::bitset<4>&) const noexcept { return 0; } }; }
struct HB : sdd::default_configuration {
  using Identifier = unsigned; using Values = sdd::values::bitset<4>;
  HB(unsigned t = 16, unsigned c = 32, unsigned a = 4096) {
    sdd_unique_table_size = t; sdd_difference_cache_size = c; sdd_intersection_cache_size = c; sdd_sum_cache_size = c;
    sdd_arena_size = a; hom_unique_table_size = t; hom_cache_size = c;
  }
};
using C = HB; using D = sdd::SDD<C>; using Hom = sdd::homomorphism<C>; using Ord = sdd::order<C>; using OB = sdd::order_builder<C>; using B4 = sdd::values::bitset<4>;
using u64 = std::uint64_t;
inline u64 m01(u64 b) { return (u64)0 - (b & 1); } // all ones when the lowest bit is set
inline B4 b4(unsigned m) { return B4(std::bitset<4>(m)); }
inline unsigned bits(const B4& b) { return (unsigned)b.content().to_ulong(); }

inline unsigned onehot(const char* n) { const unsigned w = (unsigned)__symx_input(n, 4); SYM_ASSUME((w == 1) | (w == 2) | (w == 4) | (w == 8)); return w; }
// ---- reading an SDD: membership of a symbolic point, one value (as a mask) per flat level in traversal order ----
inline unsigned dp(const D& x);
struct dp_vis {
  unsigned operator()(const sdd::zero_terminal<C>&) const { return 0; }
  unsigned operator()(const sdd::one_terminal<C>&) const { return 0; }
  unsigned operator()(const sdd::flat_node<C>& n) const { return 1 + dp(n.begin()->successor()); }
  unsigned operator()(const sdd::hierarchical_node<C>& n) const { return dp(n.begin()->valuation()) + dp(n.begin()->successor()); }
};
inline unsigned dp(const D& x) { return sdd::visit(dp_vis{}, x); }
inline bool in(const D& x, const unsigned* p);
struct in_vis {
  const unsigned* p;
  bool operator()(const sdd::zero_terminal<C>&) const { return false; }
  bool operator()(const sdd::one_terminal<C>&) const { return true; }
  bool operator()(const sdd::flat_node<C>& n) const { bool r = false; for (const auto& a : n) r = r | (((bits(a.valuation()) & p[0]) != 0) & in(a.successor(), p + 1)); return r; }
  bool operator()(const sdd::hierarchical_node<C>& n) const { bool r = false; for (const auto& a : n) { const unsigned d = dp(a.valuation()); r = r | (in(a.valuation(), p) & in(a.successor(), p + d)); } return r; }
};
inline bool in(const D& x, const unsigned* p) { return sdd::visit(in_vis{p}, x); }
// canonical form, as a formula over the same point: no arc empty, no two arcs of a node holding the same value, no two with the same successor
inline bool canon(const D& x, const unsigned* p);
struct canon_vis {
  const unsigned* p;
  bool operator()(const sdd::zero_terminal<C>&) const { return true; }
  bool operator()(const sdd::one_terminal<C>&) const { return true; }
  template <class N> static bool arcs(const N& n) { bool r = n.begin() != n.end(); for (auto i = n.begin(); i != n.end(); ++i) { if (i->successor().empty()) r = false; for (auto j = n.begin(); j != i; ++j) if (i->successor() == j->successor()) r = false; } return r; }
  bool operator()(const sdd::flat_node<C>& n) const { bool r = arcs(n); unsigned seen = 0; for (const auto& a : n) { const unsigned b = bits(a.valuation()); r = r & (b != 0) & ((b & seen) == 0) & canon(a.successor(), p + 1); seen |= b; } return r; }
  bool operator()(const sdd::hierarchical_node<C>& n) const {
    bool r = arcs(n), seen = false;
    for (const auto& a : n) { if (a.valuation().empty()) return false; const bool b = in(a.valuation(), p); r = r & !(b & seen) & canon(a.valuation(), p) & canon(a.successor(), p + dp(a.valuation())); seen = seen | b; }
    return r;
  }
};
inline bool canon(const D& x, const unsigned* p) { return sdd::visit(canon_vis{p}, x); }
using pred = std::function<bool(const unsigned*)>;  // a set of assignments

// ---- orders: flat levels are identifiers 0,1,2; hierarchical ones 10, 11, 12 -----------------------
// 0: flat 0 1 2   1: 10{0,1} 2   2: 0 10{1 2}   3: 10{0} 11{1} 12{2}   4: 11{10{0} 1} 2   5: flat 0 1   6: 10{0} 11{1}   7: 10{0 1}   8: 11{10{0}} 1
inline OB ob1(unsigned a, OB next = OB()) { next.push(a); return next; }
inline OB obn(unsigned a, const OB& nested, OB next = OB()) { next.push(a, nested); return next; }
inline OB mk_order(unsigned s) {
  switch (s) {
    case 0: return ob1(0, ob1(1, ob1(2)));
    case 1: return obn(10, ob1(0, ob1(1)), ob1(2));
    case 2: return ob1(0, obn(10, ob1(1, ob1(2))));
    case 3: return obn(10, ob1(0), obn(11, ob1(1), obn(12, ob1(2))));
    case 4: return obn(11, obn(10, ob1(0), ob1(1)), ob1(2));
    case 5: return ob1(0, ob1(1));
    case 6: return obn(10, ob1(0), obn(11, ob1(1)));
    case 7: return obn(10, ob1(0, ob1(1)));
    case 9: { OB n = ob1(2); n.push(sdd::order_identifier<C>(), ob1(0, ob1(1))); return n; } // an artificial level around 0 1, then 2
    default: return obn(11, obn(10, ob1(0)), ob1(1));
  }
}
// the list of levels nested in a hierarchical identifier, as a builder of its own
inline OB mk_nested(unsigned s, unsigned id) {
  switch (s) {
    case 1: case 7: return ob1(0, ob1(1));
    case 2: return ob1(1, ob1(2));
    case 3: case 6: return ob1(id - 10);
    case 4: return id == 11 ? obn(10, ob1(0), ob1(1)) : ob1(0);
    default: return id == 11 ? obn(10, ob1(0)) : ob1(0);
  }
}
inline unsigned& SH() { static unsigned s = 0; return s; }
inline unsigned order_levels(unsigned s) { return s < 5 || s == 9 ? 3 : 2; }

// ---- user functions: any relation on the four values -----------------------------------------------
struct boom {};
inline unsigned& CALLS() { static unsigned n = 0; return n; }
inline unsigned& FAILAT() { static unsigned n = 0; return n; } // the call of a user function that throws; 0: none
struct rel {
  std::array<unsigned char, 4> t; bool sel, shf;
  B4 operator()(const B4& v) const { if (++CALLS() == FAILAT()) throw boom{}; unsigned r = 0; for (unsigned i = 0; i < 4; ++i) r |= (unsigned)m01(bits(v) >> i) & t[i]; return b4(r); }
  bool selector() const noexcept { return sel; }
  bool shifter() const noexcept { return shf; }
  friend bool operator==(const rel& a, const rel& b) noexcept { return (a.t[0] == b.t[0]) & (a.t[1] == b.t[1]) & (a.t[2] == b.t[2]) & (a.t[3] == b.t[3]) & (a.sel == b.sel) & (a.shf == b.shf); }
};
inline std::vector<rel>& RELS() { static std::vector<rel> v; return v; } // the functions printed so far
inline std::ostream& operator<<(std::ostream& o, const rel& r) { RELS().push_back(r); return o << "rel" << (unsigned)(RELS().size() - 1); }
namespace std { template <> struct hash<rel> { size_t operator()(const rel&) const noexcept { return 0; } }; }
// kinds: 0 filter by a symbolic mask (declared selector); 1 the same, not declared; 2 one symbolic move v->w; 3 rotate (declared shifter); 4 any relation; 5 increment (drops the last value); 6 the same, declared shifter
inline rel mk_rel(unsigned kind) {
  rel r{{{0, 0, 0, 0}}, false, false};
  switch (kind) {
    case 0: case 1: { const unsigned m = (unsigned)__symx_input("flt", 4); for (unsigned i = 0; i < 4; ++i) r.t[i] = (unsigned char)(m & (1u << i)); r.sel = kind == 0; break; }
    case 2: { const unsigned v = onehot("from"), w = onehot("to"); for (unsigned i = 0; i < 4; ++i) r.t[i] = (unsigned char)(w & (unsigned)m01(v >> i)); break; }
    case 3: for (unsigned i = 0; i < 4; ++i) r.t[i] = (unsigned char)(1u << ((i + 1) & 3)); r.shf = true; break;
    case 4: for (unsigned i = 0; i < 4; ++i) r.t[i] = (unsigned char)__symx_input("rel", 4); break;
    default: for (unsigned i = 0; i < 3; ++i) r.t[i] = (unsigned char)(1u << (i + 1)); r.shf = kind == 6;
  }
  return r;
}
// ---- homomorphisms with their meaning ------------------------------------------------------------
struct H { // a description, from which the real homomorphism and its meaning are both made
  enum K { ID, FUN, COMP, SUM, FIX, LOCAL, ITE, INTER, CONST } k;
  unsigned level = 0; rel f{}; std::vector<H> sub;
};
inline unsigned& NL() { static unsigned n = 3; return n; }
// p belongs to the image of s: the meaning of a homomorphism, point by point
inline bool img(const H& h, const pred& s, const unsigned* p) {
  switch (h.k) {
    case H::ID: case H::LOCAL: return h.k == H::ID ? s(p) : img(h.sub[0], s, p);
    case H::FUN: {
      unsigned q[3] = {p[0], p[1], p[2]}; bool r = false;
      for (unsigned v = 0; v < 4; ++v) { q[h.level] = 1u << v; r = r | (((h.f.t[v] & p[h.level]) != 0) & s(q)); }
      return r;
    }
    case H::COMP: return img(h.sub[0], [&](const unsigned* q) { return img(h.sub[1], s, q); }, p);
    case H::SUM: { bool r = false; for (auto& x : h.sub) r = r | img(x, s, p); return r; }
    case H::ITE: return img(h.sub[1], [&](const unsigned* q) { return img(h.sub[0], s, q); }, p)
                      | img(h.sub[2], [&](const unsigned* q) { return s(q) & !img(h.sub[0], s, q); }, p);
    case H::INTER: { bool r = true; for (auto& x : h.sub) r = r & img(x, s, p); return r; }
    default: return false;
  }
}
inline H h_id() { H h; h.k = H::ID; return h; }
inline H h_fun(unsigned level, const rel& f) { H h; h.k = H::FUN; h.level = level; h.f = f; return h; }
inline H h_local(unsigned id, H x) { H h; h.k = H::LOCAL; h.level = id; h.sub.push_back(std::move(x)); return h; }
inline H h_n(H::K k, std::vector<H> s) { H h; h.k = k; h.sub = std::move(s); return h; }
inline Hom mk(const Ord& o, const H& h) {
  switch (h.k) {
    case H::ID: return sdd::id<C>();
    case H::FUN: return sdd::function<C>(o, h.level, rel(h.f));
    case H::COMP: return sdd::composition(mk(o, h.sub[0]), mk(o, h.sub[1]));
    case H::SUM: { std::vector<Hom> v; for (auto& x : h.sub) v.push_back(mk(o, x)); return sdd::sum<C>(o, v.begin(), v.end()); }
    case H::FIX: return sdd::fixpoint(mk(o, h.sub[0]));
    case H::LOCAL: { const Ord n(mk_nested(SH(), h.level)); return sdd::local<C>(h.level, o, mk(n, h.sub[0])); }
    case H::ITE: return sdd::if_then_else(mk(o, h.sub[0]), mk(o, h.sub[1]), mk(o, h.sub[2]));
    case H::INTER: { std::vector<Hom> v; for (auto& x : h.sub) v.push_back(mk(o, x)); return sdd::intersection<C>(o, v.begin(), v.end()); }
    default: return sdd::id<C>();
  }
}

// ---- operands: unions of cubes --------------------------------------------------------------------
// masks: mode 0 any mask, 1 one value, 2 concrete
struct operand { D x; std::vector<std::array<unsigned, 3>> cubes;
  bool operator()(const unsigned* p) const { bool r = false; for (auto& c : cubes) { bool k = true; for (unsigned l = 0; l < NL(); ++l) k = k & ((c[l] & p[l]) != 0); r = r | k; } return r; } };
inline D cube_rec(const Ord& o, const unsigned* m) {
  if (o.empty()) return sdd::one<C>();
  if (o.nested().empty()) return D(o.variable(), b4(m[o.identifier().user()]), cube_rec(o.next(), m));
  return D(o.variable(), cube_rec(o.nested(), m), cube_rec(o.next(), m));
}
inline operand mk_operand(const Ord& o, unsigned n, unsigned modes, unsigned modes2) { // modes2: for the cubes after the first
  operand r{sdd::zero<C>(), {}};
  for (unsigned k = 0; k < n; ++k) {
    unsigned m[3] = {1, 1, 1};
    for (unsigned l = 0; l < NL(); ++l) {
      const unsigned mode = ((k ? modes2 : modes) >> (2 * l)) & 3;
      if (mode == 0) m[l] = (unsigned)__symx_input("m", 4);
      else if (mode == 1) m[l] = onehot("v");
      else m[l] = mode == 2 ? 1u << k : 3u;
    }
    r.cubes.push_back({{m[0], m[1], m[2]}});
    r.x = r.x + cube_rec(o, m);
  }
  return r;
}
