// C11: equality is an equivalence, equal objects hash equally, orderings are strict and consistent; with the real hash functions.
#include "sym.h"
#include "sdd/sdd.hh"
#include <vector>
template <class Base> struct small : Base { small() { this->sdd_unique_table_size = 4; this->sdd_difference_cache_size = 4; this->sdd_intersection_cache_size = 4; this->sdd_sum_cache_size = 4; this->sdd_arena_size = 4096; this->hom_unique_table_size = 4; this->hom_cache_size = 4; } };
struct FR : small<sdd::flat_set_default_configuration> { using Identifier = unsigned; using Values = sdd::values::flat_set<unsigned>; FR() { this->flat_set_unique_table_size = 4; } };
// identifiers with a hash of one bit, so that it stays symbolic
struct Id { unsigned v = 0; Id(unsigned w = 0) : v(w) {} friend bool operator==(Id a, Id b) noexcept { return a.v == b.v; } friend bool operator<(Id a, Id b) noexcept { return a.v < b.v; } friend std::ostream& operator<<(std::ostream& o, Id) { return o; } };
namespace std { template <> struct hash<Id> { size_t operator()(Id a) const noexcept { return a.v & 1; } }; }
struct BI : small<sdd::default_configuration> { using Identifier = Id; using Values = sdd::values::bitset<8>; };
struct BR : small<sdd::default_configuration> { using Identifier = unsigned; using Values = sdd::values::bitset<8>; };
using u64 = std::uint64_t;
template <class T> void laws(const T& a, const T& b, const T& c, const char* what) {
  SYM_ASSERT(a == a && !(a != a), what); SYM_ASSERT((a == b) == (b == a) && (a != b) == !(a == b), what);
  if (a == b && b == c) SYM_ASSERT(a == c, what);
  if (a == b) SYM_ASSERT(std::hash<T>()(a) == std::hash<T>()(b), what);
}
template <class T> void strict(const T& a, const T& b, const T& c, const char* what) {
  SYM_ASSERT(!(a < a), what);
  const bool ab = a < b, ba = b < a; SYM_ASSERT(!(ab && ba) && (a == b) == (!ab && !ba), what);
  if (ab && b < c) SYM_ASSERT(a < c, what);
}
template <std::size_t N> static sdd::values::bitset<N> bs() {
  std::bitset<N> b; if (N <= 64) b = std::bitset<N>(sym_u64("w")); else { b = std::bitset<N>(sym_pick("hi", 3)); b <<= N > 64 ? N - 64 : 0; b |= std::bitset<N>(sym_pick("lo", 3)); } // hashing more than a word is a call to libstdc++'s compiled code
  return sdd::values::bitset<N>(b);
}
template <std::size_t N> static void bitsets() { // without forks: one formula per law
  using B = sdd::values::bitset<N>; const B a = bs<N>(), b = bs<N>(), c = bs<N>();
  laws(a, b, c, "bitsets: equality and hash"); strict(a, b, c, "bitsets: ordering");
}
template <class C> struct mkv;
template <> struct mkv<FR> { static FR::Values go(unsigned a, unsigned b) { return FR::Values{a, b}; } };
template <> struct mkv<BR> { static BR::Values go(unsigned a, unsigned b) { return BR::Values(std::bitset<8>((1u << (a & 7)) | (1u << (b & 7)))); } };
template <class C> static void sdds() { // three sets of two values each, built in different orders
  using D = sdd::SDD<C>; auto m = sdd::init(C{}); const unsigned vb = __sym_param("VB", 4);
  const unsigned a = (unsigned)__symx_input("a", vb), b = (unsigned)__symx_input("b", vb), c = (unsigned)__symx_input("c", vb);
  const auto s = mkv<C>::go(a, b), t = mkv<C>::go(b, c), u = mkv<C>::go(c, a), w = mkv<C>::go(b, a);
  laws(s, t, u, "sets of values: equality and hash"); strict(s, t, u, "sets of values: ordering");
  SYM_ASSERT(s == w && std::hash<typename C::Values>()(s) == std::hash<typename C::Values>()(w), "the same set built twice");
  SYM_ASSERT((s == t) == ((a == c) | ((a == b) & (b == c)) ), "sets of values are equal exactly when they hold the same values");
  const D one = sdd::one<C>(), x(0, s, one), y(0, t, one), z(0, u, one), v = D(0, mkv<C>::go(b, b), one) + D(0, mkv<C>::go(a, a), one);
  laws(x, y, z, "SDDs: equality and hash"); strict(x, y, z, "SDDs: ordering"); laws(x, v, y, "SDDs: equality and hash");
  SYM_ASSERT(x == v && std::hash<D>()(x) == std::hash<D>()(v), "the same SDD built in two ways, with the real hash functions");
  const D n(0, x, one), k(0, v, one); SYM_ASSERT(n == k && std::hash<D>()(n) == std::hash<D>()(k), "the same nested SDD built in two ways"); laws(n, x, D(0, y, one), "SDDs: equality and hash");
}
using C = BI; using OB = sdd::order_builder<C>; using Ord = sdd::order<C>; using OI = sdd::order_identifier<C>;
static OB tree(unsigned shape, const unsigned* id, const OI* art) { // shapes of at most three levels
  OB b; switch (shape) {
    case 0: break;
    case 1: b.push(Id(id[0])); break;
    case 2: b.push(Id(id[1])); b.push(Id(id[0])); break;
    case 3: { OB n; n.push(Id(id[1])); b.push(Id(id[0]), n); break; }
    case 4: { OB n; n.push(Id(id[1])); b.push(Id(id[2])); b.push(Id(id[0]), n); break; }
    case 5: { OB n; n.push(Id(id[2])); n.push(Id(id[1])); b.push(Id(id[0]), n); break; }
    case 6: { OB n; n.push(Id(id[1])); if (art) b.push(*art, n); else b.push(OI(), n); break; }
    default: b.push(Id(id[2])); b.push(Id(id[1])); b.push(Id(id[0]));
  } return b;
}
static unsigned used(unsigned shape) { static const unsigned n[] = {0, 1, 2, 2, 3, 3, 2, 3}; return n[shape]; }
static void orders() {
  const unsigned s = sym_pick("s", 8), t = sym_pick("t", 8); unsigned a[3], b[3];
  for (unsigned k = 0; k < 3; ++k) { a[k] = k < used(s) ? sym_u32("a") : 0; b[k] = k < used(t) ? sym_u32("b") : 0; }
  SYM_ASSUME((a[0] != a[1] || used(s) < 2) & (used(s) < 3 || (a[0] != a[2] && a[1] != a[2]))); SYM_ASSUME((b[0] != b[1] || used(t) < 2) & (used(t) < 3 || (b[0] != b[2] && b[1] != b[2])));
  const OI art; const Ord x(tree(s, a, &art)), y(tree(t, b, sym_pick("art", 2) ? &art : nullptr)), z(tree(s, a, &art));
  SYM_ASSERT(x == x && x == z && (x == y) == (y == x), "orders: equality");
  SYM_ASSERT(std::hash<Ord>()(x) == std::hash<Ord>()(z), "orders built alike hash alike");
  if (x == y) { SYM_ASSERT(std::hash<Ord>()(x) == std::hash<Ord>()(y), "equal orders hash equally"); if (s) SYM_REACH("same"); }
  if (s && !x.next().empty()) { const Ord n = x.next(); SYM_ASSERT(n == z.next() && std::hash<Ord>()(n) == std::hash<Ord>()(z.next()), "parts of equal orders"); }
  if (s && !x.nested().empty()) SYM_ASSERT(x.nested() == z.nested() && std::hash<Ord>()(x.nested()) == std::hash<Ord>()(z.nested()), "nested parts of equal orders");
  const OI i{Id{a[0]}}, j{Id{b[0]}}, k{Id{a[0]}}, l; // identifiers
  SYM_ASSERT(i == i && i == k && (i == j) == (a[0] == b[0]) && (i == j) == (j == i) && !(l == i) && !(l == art) && l == l, "identifiers: equality");
  SYM_ASSERT(std::hash<OI>()(i) == std::hash<OI>()(k), "equal identifiers hash equally"); if (i == j) SYM_ASSERT(std::hash<OI>()(i) == std::hash<OI>()(j), "equal identifiers hash equally");
  const OI copy = l; SYM_ASSERT(copy == l && std::hash<OI>()(copy) == std::hash<OI>()(l), "artificial identifiers hash equally");
}
struct fun { unsigned k; C::Values operator()(const C::Values& v) const { return v; } friend bool operator==(fun a, fun b) noexcept { return a.k == b.k; } friend std::ostream& operator<<(std::ostream& o, fun) { return o; } };
namespace std { template <> struct hash<fun> { size_t operator()(const fun& f) const noexcept { return f.k; } }; }
static void homs() { // user functions with their real (symbolic) hash
  using Hom = sdd::homomorphism<C>; auto m = sdd::init(C{}); OB ob; ob.push(Id(1)); ob.push(Id(0)); const Ord o(ob);
  const unsigned k = (unsigned)__symx_input("k", 3), l = (unsigned)__symx_input("l", 3), e = sym_pick("e", 5);
  const auto mk = [&](unsigned i, unsigned p, unsigned q) { const Hom f = sdd::function<C>(o, Id(0), fun{p}), g = sdd::function<C>(o, Id(1), fun{q});
    switch (i) { case 0: return f; case 1: return sdd::composition(f, g); case 2: return sdd::sum<C>(o, {f, g}); case 3: return sdd::fixpoint(sdd::sum<C>(o, {sdd::id<C>(), f})); default: return sdd::composition(sdd::fixpoint(f), sdd::sum<C>(o, {g, sdd::id<C>()})); } };
  const Hom a = mk(e, k, l), b = mk(e, l, k), c = mk(e, k, l);
  laws(a, b, c, "homomorphisms: equality and hash"); strict(a, b, c, "homomorphisms: ordering");
  SYM_ASSERT(a == c && std::hash<Hom>()(a) == std::hash<Hom>()(c), "the same homomorphism built twice, with the real hash functions");
  SYM_ASSERT((a == b) == (k == l), "different functions give different homomorphisms");
}
void harness_main() {
  switch (__sym_param("PART", 0)) {
    case 0: bitsets<8>(); bitsets<16>(); bitsets<32>(); bitsets<64>(); break;
    case 1: bitsets<80>(); break;
    case 2: sdds<FR>(); break;
    case 3: sdds<BR>(); break;
    case 4: orders(); break;
    default: homs();
  }
  SYM_REACH("end");
}
