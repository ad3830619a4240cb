// Shared by the harnesses: configurations with symbolic value types, an independent reading of what an SDD
// denotes (membership of a symbolic point), and the canonical-form invariants of the nodes.
#pragma once
#include "sym.h"
#include "sdd/sdd.hh"
#include <vector>
#include <array>

// ---- value types -------------------------------------------------------------------------------
// A user value type whose hash is constant: every value collides, so unification is decided by operator==.
struct V {
  unsigned v;
  friend bool operator==(V a, V b) noexcept { return a.v == b.v; }
  friend bool operator<(V a, V b) noexcept { return a.v < b.v; }
  friend std::ostream& operator<<(std::ostream& o, V a) { return o << a.v; }
};
namespace std {
template <> struct hash<V> { size_t operator()(V) const noexcept { return 0; } };
// Same for bitset<8>: its real hash is the subject of property hash_equality; here every bitset collides.
template <> struct hash<sdd::values::bitset<8>> { size_t operator()(const sdd::values::bitset<8>&) const noexcept { return 0; } };
} // namespace std

template <class Base> struct small : Base {
  small() {
    this->sdd_unique_table_size = 16;
    this->sdd_difference_cache_size = 16;
    this->sdd_intersection_cache_size = 16;
    this->sdd_sum_cache_size = 16;
    this->sdd_arena_size = 4096;
    this->hom_unique_table_size = 16;
    this->hom_cache_size = 32;
  }
};
struct FS : small<sdd::flat_set_default_configuration> { // symbolic flat_set
  using Identifier = unsigned; using Values = sdd::values::flat_set<V>;
  FS() { this->flat_set_unique_table_size = 16; }
};
struct BS : small<sdd::default_configuration> { // symbolic bitset
  using Identifier = unsigned; using Values = sdd::values::bitset<8>;
};

// ---- reading a set of values --------------------------------------------------------------------
// membership as a formula (no fork): returns a bool built with | and &
inline bool val_in(const sdd::values::flat_set<V>& s, unsigned p) {
  bool r = false;
  for (auto it = s.begin(); it != s.end(); ++it) r = r | (it->v == p);
  return r;
}
template <std::size_t N> inline bool val_in(const sdd::values::bitset<N>& s, unsigned p) {
  return ((s.content().to_ulong() >> (p & (N - 1))) & 1) != 0;
}
inline bool val_disjoint(const sdd::values::flat_set<V>& a, const sdd::values::flat_set<V>& b) {
  bool r = true;
  for (auto i = a.begin(); i != a.end(); ++i) for (auto j = b.begin(); j != b.end(); ++j) r = r & !(i->v == j->v);
  return r;
}
template <std::size_t N> inline bool val_disjoint(const sdd::values::bitset<N>& a, const sdd::values::bitset<N>& b) {
  return (a.content().to_ulong() & b.content().to_ulong()) == 0;
}
inline bool val_nonempty(const sdd::values::flat_set<V>& a) { return a.begin() != a.end(); }
template <std::size_t N> inline bool val_nonempty(const sdd::values::bitset<N>& a) { return a.content().to_ulong() != 0; }

// ---- reading an SDD ------------------------------------------------------------------------------
// A point assigns one unsigned to every flat level, in traversal order (nested levels first, then next).
template <class C> struct reader {
  const unsigned* p;
  unsigned n;          // number of flat levels available
  // number of flat levels below x is supplied by the harness via depth()
  static unsigned depth(const sdd::SDD<C>& x) { // number of flat levels crossed on the leftmost path
    struct vis {
      unsigned operator()(const sdd::zero_terminal<C>&) const { return 0; }
      unsigned operator()(const sdd::one_terminal<C>&) const { return 0; }
      unsigned operator()(const sdd::flat_node<C>& n) const { return 1 + depth(n.begin()->successor()); }
      unsigned operator()(const sdd::hierarchical_node<C>& n) const { return depth(n.begin()->valuation()) + depth(n.begin()->successor()); }
    };
    return sdd::visit(vis{}, x);
  }
};
template <class C> bool member(const sdd::SDD<C>& x, const unsigned* p);
template <class C> struct member_vis {
  const unsigned* p;
  bool operator()(const sdd::zero_terminal<C>&) const { return false; }
  bool operator()(const sdd::one_terminal<C>&) const { return true; }
  bool operator()(const sdd::flat_node<C>& n) const {
    bool r = false;
    for (const auto& a : n) r = r | (val_in(a.valuation(), p[0]) & member<C>(a.successor(), p + 1));
    return r;
  }
  bool operator()(const sdd::hierarchical_node<C>& n) const {
    bool r = false;
    for (const auto& a : n) {
      const unsigned d = reader<C>::depth(a.valuation());
      r = r | (member<C>(a.valuation(), p) & member<C>(a.successor(), p + d));
    }
    return r;
  }
};
template <class C> bool member(const sdd::SDD<C>& x, const unsigned* p) { return sdd::visit(member_vis<C>{p}, x); }

// number of flat levels
template <class C> unsigned levels(const sdd::SDD<C>& x) { return reader<C>::depth(x); }

// All values mentioned at each flat level of an SDD (flat_set only): used to decide semantic equality exactly.
using columns = std::vector<std::vector<unsigned>>;

// semantic equality of two SDDs over a finite list of candidate points, as one formula
template <class C>
bool same_on(const sdd::SDD<C>& x, const sdd::SDD<C>& y, const columns& col, unsigned lvl, std::vector<unsigned>& pt) {
  if (lvl == col.size()) return member<C>(x, pt.data()) == member<C>(y, pt.data());
  bool r = true;
  for (unsigned v : col[lvl]) { pt[lvl] = v; r = r & same_on<C>(x, y, col, lvl + 1, pt); }
  return r;
}

// ---- canonical-form invariants --------------------------------------------------------------------
template <class C> struct inv_vis {
  void operator()(const sdd::zero_terminal<C>&) const {}
  void operator()(const sdd::one_terminal<C>&) const {}
  template <class N> void common(const N& n) const {
    SYM_ASSERT(n.begin() != n.end(), "canon: node without arcs");
    for (auto i = n.begin(); i != n.end(); ++i) {
      SYM_ASSERT(!i->successor().empty(), "canon: arc to zero");
      for (auto j = n.begin(); j != i; ++j) SYM_ASSERT(i->successor() != j->successor(), "canon: two arcs with the same successor");
    }
  }
  void operator()(const sdd::flat_node<C>& n) const {
    common(n);
    for (auto i = n.begin(); i != n.end(); ++i) {
      SYM_ASSERT(val_nonempty(i->valuation()), "canon: empty valuation");
      for (auto j = n.begin(); j != i; ++j) SYM_ASSERT(val_disjoint(i->valuation(), j->valuation()), "canon: overlapping valuations");
      sdd::visit(*this, i->successor());
    }
  }
  void operator()(const sdd::hierarchical_node<C>& n) const {
    common(n);
    for (auto i = n.begin(); i != n.end(); ++i) {
      SYM_ASSERT(!i->valuation().empty(), "canon: empty valuation");
      for (auto j = n.begin(); j != i; ++j) SYM_ASSERT((i->valuation() & j->valuation()).empty(), "canon: overlapping valuations");
      sdd::visit(*this, i->valuation());
      sdd::visit(*this, i->successor());
    }
  }
};
template <class C> void check_canonical(const sdd::SDD<C>& x) { sdd::visit(inv_vis<C>{}, x); }
