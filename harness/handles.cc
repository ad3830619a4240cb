// C23: histories of copies, moves, swaps, assignments and destructions of handles.
// PART 0: SDDs, no operation (nodes counted exactly after every step); 1: SDDs with operations; 2: homomorphisms; 3: sets of values.
#include "hh.h"
using C = FS; using D = sdd::SDD<C>; using Vals = C::Values; using Hom = sdd::homomorphism<C>; using Ord = sdd::order<C>;
static unsigned pick_act(unsigned n);
static const unsigned MAXS = 3; static unsigned NSLOT;
static unsigned val[4][2];
static Vals vs(unsigned k, unsigned l) { return Vals{V{val[k][l]}}; }
static bool NESTED;
static D cube(unsigned k) { return NESTED ? D(1, D(0, vs(k, 0), sdd::one<C>()), D(0, vs(k, 1), sdd::one<C>())) : D(1, vs(k, 0), D(0, vs(k, 1), sdd::one<C>())); }
struct walk {
  std::vector<D> n; std::vector<Vals> v;
  void go(const D& x);
  void add(const Vals& x) { for (auto& y : v) if (y == x) return; v.push_back(x); }
};
struct wv {
  walk& w;
  void operator()(const sdd::zero_terminal<C>&) const {}
  void operator()(const sdd::one_terminal<C>&) const {}
  void operator()(const sdd::flat_node<C>& n) const { for (auto& a : n) { w.add(a.valuation()); w.go(a.successor()); } }
  void operator()(const sdd::hierarchical_node<C>& n) const { for (auto& a : n) { w.go(a.valuation()); w.go(a.successor()); } }
};
void walk::go(const D& x) { for (auto& y : n) if (y == x) return; n.push_back(x); sdd::visit(wv{*this}, x); }
struct val_vis { // the handle owned by a node
  const D* operator()(const sdd::zero_terminal<C>&) const { return nullptr; }
  const D* operator()(const sdd::one_terminal<C>&) const { return nullptr; }
  const D* operator()(const sdd::flat_node<C>&) const { return nullptr; }
  const D* operator()(const sdd::hierarchical_node<C>& n) const { return &n.begin()->valuation(); }
};
struct suc_vis {
  D operator()(const sdd::zero_terminal<C>&) const { return D(); }
  D operator()(const sdd::one_terminal<C>&) const { return D(); }
  D operator()(const sdd::flat_node<C>& n) const { return n.begin()->successor(); }
  D operator()(const sdd::hierarchical_node<C>& n) const { return n.begin()->successor(); }
};
struct fun { // v -> v + 1 or a filter
  unsigned k;
  Vals operator()(const Vals& v) const { Vals r; for (auto& x : v) { if (k == 3) { if (x.v & 1) r.insert(x); } else r.insert(V{x.v + k}); } return r; }
  bool selector() const noexcept { return k == 3; }
  friend bool operator==(fun a, fun b) noexcept { return a.k == b.k; }
  friend std::ostream& operator<<(std::ostream& o, fun) { return o; }
};
namespace std { template <> struct hash<fun> { size_t operator()(const fun&) const noexcept { return 0; } }; }
static void sdds(bool ops) {
  const unsigned steps = __sym_param("STEPS", 3), nacts = ops ? 10 : 8;
  const auto before = __sym_live_blocks();
  {
    auto m = sdd::init(C{});
    const auto n0 = (unsigned long)m.sdd_stats().size, v0 = (unsigned long)m.values_stats().size;
    const unsigned p[2] = {sym_u8("p"), sym_u8("p")};
    bool head[4], tl[4];
    for (unsigned k = 0; k < 4; ++k) { for (unsigned l = 0; l < 2; ++l) { val[k][l] = k < 1 ? sym_u8("a") : 40 + 2 * k + 128 * l; if (k < 1) SYM_ASSUME((val[k][l] >> 7 == l) & (val[k][l] != 44 + 128 * l) & (val[k][l] != 46 + 128 * l)); } head[k] = val[k][0] == p[0]; tl[k] = val[k][1] == p[1]; }
    {
      std::vector<D> h; bool mod[MAXS]; bool part[MAXS]; // membership of p; of its part in the nested level or the successor (of the first arc)
      bool zero[MAXS];
      for (unsigned i = 0; i < NSLOT; ++i) { h.push_back(i < 2 ? cube(i) : sdd::zero<C>()); mod[i] = i < 2 && (head[i] & tl[i]); part[i] = i < 2 && (NESTED ? head : tl)[i]; zero[i] = i == 2; }
      for (unsigned s = 0; s < steps; ++s) {
        const unsigned act = pick_act(nacts), i = sym_pick("i", NSLOT), j = act == 5 || act == 6 ? i : sym_pick("j", NSLOT);
        const auto set = [&](unsigned a, unsigned b) { mod[a] = mod[b]; part[a] = part[b]; zero[a] = zero[b]; };
        const auto fresh = [&](unsigned a, unsigned k) { mod[a] = head[k] & tl[k]; part[a] = (NESTED ? head : tl)[k]; zero[a] = false; };
        switch (act) {
          case 0: h[i] = h[j]; set(i, j); break;
          case 1: if (i != j) { h[i] = std::move(h[j]); set(i, j); h[j] = cube(2); fresh(j, 2); } else { D t(std::move(h[i])); h[i] = t; } break;
          case 2: { using std::swap; swap(h[i], h[j]); const bool a = mod[i], b = part[i], c = zero[i]; set(i, j); mod[j] = a; part[j] = b; zero[j] = c; break; }
          case 3: { D t(std::move(h[j])); h[j] = cube(3); h[i] = std::move(t); const bool a = mod[j], b = part[j], c = zero[j]; fresh(j, 3); mod[i] = a; part[i] = b; zero[i] = c; break; }
          case 4: { std::vector<D> v; v.push_back(h[i]); v.push_back(h[j]); v.push_back(h[i]); v.erase(v.begin()); v.insert(v.begin(), cube(1)); h[i] = v[1]; set(i, j); break; }
          case 5: if (!zero[i]) { // from a handle owned by what it releases
            if (NESTED) { h[i] = *sdd::visit(val_vis{}, h[i]); h[i] = D(1, h[i], D(0, vs(2, 1), sdd::one<C>())); mod[i] = part[i] & tl[2]; }
            else { h[i] = sdd::visit(suc_vis{}, h[i]); h[i] = D(1, vs(2, 0), h[i]); mod[i] = head[2] & part[i]; } } break;
          case 6: { if (s & 1) { h[i] = D(); mod[i] = false; part[i] = false; zero[i] = true; } else { h[i] = cube(0); fresh(i, 0); } break; }
          case 7: { D t(h[i]); { const D u = std::move(t); h[j] = u; } set(j, i); break; }
          case 8: if (i != j) { h[i] += h[j]; mod[i] = mod[i] | mod[j]; } else h[i] = h[i] + h[j]; zero[i] = zero[i] & zero[j]; part[i] = part[i] | part[j]; break;
          default: { const bool e = (h[i] - h[j]).empty(); h[i] -= h[j]; mod[i] = mod[i] & !mod[j]; zero[i] = e; }
        }
        if (ops && !h[i].empty()) part[i] = NESTED ? member<C>(*sdd::visit(val_vis{}, h[i]), p) : member<C>(sdd::visit(suc_vis{}, h[i]), p + 1); // which arc comes first is not modelled

        bool r = true; for (unsigned k = 0; k < NSLOT; ++k) r = r & (member<C>(h[k], p) == mod[k]) & (h[k].empty() == zero[k]);
        SYM_ASSERT(r, "every handle designates the set it was given");
        if (!ops) {
          walk w; for (auto& x : h) w.go(x); unsigned inner = 0; for (auto& x : w.n) if (!x.empty() && x != sdd::one<C>()) ++inner;
          SYM_ASSERT(m.sdd_stats().size == n0 + inner, "exactly the referenced nodes are kept");
          SYM_ASSERT(m.values_stats().size == v0 + w.v.size(), "exactly the referenced sets of values are kept");
        }
      }
    }
    if (!ops) SYM_ASSERT(m.sdd_stats().size == n0 && m.values_stats().size == v0, "nothing is kept once every handle is gone");
  }
  SYM_ASSERT(__sym_live_blocks() == before, "the manager releases everything");
}
static void homs() {
  const unsigned steps = __sym_param("STEPS", 3); const auto before = __sym_live_blocks();
  {
    auto m = sdd::init(C{});
    sdd::order_builder<C> ob; ob.push(1); ob.push(0);
    const Ord o(ob);
    const auto n0 = (unsigned long)m.hom_stats().size;
    for (unsigned l = 0; l < 2; ++l) val[0][l] = sym_u8("a");
    const D x = D(1, vs(0, 0), D(0, vs(0, 1), sdd::one<C>()));
    {
      // what a slot does to the two values: adds d[0], d[1]
      std::vector<Hom> h; unsigned d[MAXS][2];
      const auto fresh = [&](unsigned k) { return sdd::function<C>(o, k & 1, fun{1 + (k >> 1)}); };
      const auto setf = [&](unsigned i, unsigned k) { d[i][0] = d[i][1] = 0; d[i][k & 1] = 1 + (k >> 1); }; // identifier 0 is on top
      for (unsigned i = 0; i < NSLOT; ++i) { h.push_back(fresh(i)); setf(i, i); }
      for (unsigned s = 0; s < steps; ++s) {
        const unsigned act = pick_act(7), i = sym_pick("i", NSLOT), j = sym_pick("j", NSLOT);
        const auto set = [&](unsigned a, unsigned b) { d[a][0] = d[b][0]; d[a][1] = d[b][1]; };
        switch (act) {
          case 0: h[i] = h[j]; set(i, j); break;
          case 1: { Hom t(std::move(h[j])); h[j] = fresh(3); const unsigned a = d[j][0], b = d[j][1]; setf(j, 3); h[i] = std::move(t); d[i][0] = a; d[i][1] = b; break; }
          case 2: std::swap(h[i], h[j]); { const unsigned a = d[i][0], b = d[i][1]; set(i, j); d[j][0] = a; d[j][1] = b; } break;
          case 3: h[i] = sdd::composition(h[i], h[j]); d[i][0] += d[j][0]; d[i][1] += d[j][1]; break;
          case 4: { std::vector<Hom> v(2, h[i]); v.push_back(h[j]); v.erase(v.begin()); h[i] = v.back(); set(i, j); break; }
          case 5: h[i] = sdd::id<C>(); d[i][0] = d[i][1] = 0; break;
          default: { const Hom t = sdd::fixpoint<C>(sdd::if_then_else<C>(sdd::function<C>(o, 0, fun{3}), h[j], sdd::id<C>())); (void)t; m.reset_hom_cache(); }
        }
        for (unsigned k : {i, j}) {
          const D y = h[k](o, x); const unsigned q[2] = {val[0][0] + d[k][0], val[0][1] + d[k][1]};
          SYM_ASSERT(member<C>(y, q) && y.size() == 1, "every handle designates the homomorphism it was given");
        }
      }
    }
    m.reset_hom_cache();
    SYM_ASSERT(m.hom_stats().size == n0, "no homomorphism is kept once every handle is gone");
  }
  SYM_ASSERT(__sym_live_blocks() == before, "the manager releases everything");
}
static void values() {
  const unsigned steps = __sym_param("STEPS", 4); const auto before = __sym_live_blocks();
  {
    auto m = sdd::init(C{});
    const auto n0 = (unsigned long)m.values_stats().size; const unsigned p = sym_u8("p"); unsigned a[4]; for (unsigned k = 0; k < 4; ++k) { a[k] = k == 0 ? sym_u8("a") : 10 * k; SYM_ASSUME(k || a[0] != 20); }
    {
      std::vector<Vals> h; bool mod[MAXS]; for (unsigned i = 0; i < NSLOT; ++i) { h.push_back(Vals{V{a[i]}}); mod[i] = a[i] == p; }
      for (unsigned s = 0; s < steps; ++s) {
        const unsigned act = pick_act(7), i = sym_pick("i", NSLOT), j = act == 4 || act == 5 ? i : sym_pick("j", NSLOT);
        switch (act) {
          case 0: h[i] = h[j]; mod[i] = mod[j]; break;
          case 1: { Vals t(std::move(h[j])); h[j] = Vals{V{a[3]}}; const bool b = mod[j]; mod[j] = a[3] == p; h[i] = std::move(t); mod[i] = b; break; }
          case 2: std::swap(h[i], h[j]); { const bool b = mod[i]; mod[i] = mod[j]; mod[j] = b; } break;
          case 3: h[i] = sum(h[i], h[j]); mod[i] = mod[i] | mod[j]; break;
          case 4: h[i].insert(V{a[3]}); mod[i] = mod[i] | (a[3] == p); break;
          case 5: h[i].erase(V{a[0]}); mod[i] = mod[i] & !(a[0] == p); break;
          default: h[i] = difference(h[i], h[j]); mod[i] = mod[i] & !mod[j];
        }
        bool r = true; for (unsigned k = 0; k < NSLOT; ++k) r = r & (val_in(h[k], p) == mod[k]);
        SYM_ASSERT(r, "every set of values keeps its values");
        unsigned d = 0; for (unsigned k = 0; k < NSLOT; ++k) { bool f = !h[k].empty(); for (unsigned q = 0; q < k; ++q) if (h[q] == h[k]) f = false; d += f; }
        SYM_ASSERT(m.values_stats().size == n0 + d, "exactly the referenced sets of values are kept");
      }
    }
    SYM_ASSERT(m.values_stats().size == n0, "no set of values is kept once every handle is gone");
  }
  SYM_ASSERT(__sym_live_blocks() == before, "the manager releases everything");
}
// ACTS: the actions allowed, as a mask
static unsigned pick_act(unsigned n) { const std::uint64_t m = __sym_param("ACTS", ~0ull); std::vector<unsigned> v; for (unsigned i = 0; i < n; ++i) if (m >> i & 1) v.push_back(i); return v[sym_pick("act", v.size())]; }
void harness_main() {
  NSLOT = __sym_param("SLOTS", 3); NESTED = __sym_param("NESTED", 0);
  switch (__sym_param("PART", 0)) { case 0: sdds(false); break; case 1: sdds(true); break; case 2: homs(); break; default: values(); }
  SYM_REACH("end");
}
