// C09: flat_set as a mathematical set, over symbolic values.  PART selects the operations.
#include "hh.h"
using F = sdd::values::flat_set<V>;
static const unsigned M = 4;
static unsigned a[M], b[M];
static bool in(const unsigned* x, unsigned n, unsigned p) { bool r = false; for (unsigned i = 0; i < n; ++i) r = r | (x[i] == p); return r; }
static unsigned distinct(const unsigned* x, unsigned n) { unsigned c = 0; for (unsigned i = 0; i < n; ++i) c += !in(x, i, x[i]); return c; }
static bool increasing(const F& f) { bool r = true; for (auto i = f.begin(); i != f.end(); ++i) if (std::next(i) != f.end()) r = r & (i->v < std::next(i)->v); return r; }
static void is(const F& f, const unsigned* x, unsigned n, unsigned p) {
  SYM_ASSERT(val_in(f, p) == in(x, n, p), "holds exactly the values given");
  SYM_ASSERT(f.size() == distinct(x, n), "size counts distinct values");
  SYM_ASSERT(increasing(f), "iteration is strictly increasing");
  SYM_ASSERT(f.empty() == (n == 0), "empty exactly when no value was given");
}
static F make(const unsigned* x, unsigned n) { std::vector<V> v; for (unsigned i = 0; i < n; ++i) v.push_back(V{x[i]}); return F(v.begin(), v.end()); }
void harness_main() {
  auto m = sdd::init(FS{});
  const unsigned part = __sym_param("PART", 0), n = __sym_param("N", 3), k = __sym_param("K", 2), w = __sym_param("VB", 8);
  for (unsigned i = 0; i < n; ++i) a[i] = (unsigned)__symx_input("a", w);
  for (unsigned i = 0; i < k; ++i) b[i] = (unsigned)__symx_input("b", w);
  const unsigned p = (unsigned)__symx_input("p", w);
  F f = make(a, n);
  is(f, a, n, p);
  if (part == 0) { // construction, search, bounds, reverse iteration
    if (n == 2) { F g{V{a[0]}, V{a[1]}}; SYM_ASSERT(g == f, "an initializer list makes the same set as a range"); }
    { F::data_type d; for (unsigned i = n; i-- > 0;) d.insert(V{a[i]}); F g(std::move(d)); SYM_ASSERT(g == f, "the same values in another order make the same set"); }
    const bool present = in(a, n, p);
    const auto it = f.find(V{p});
    SYM_ASSERT((it != f.end()) == present, "find succeeds exactly on the values of the set");
    if (it != f.end()) SYM_ASSERT(it->v == p, "find designates the value");
    SYM_ASSERT(f.count(V{p}) == (present ? 1u : 0u), "count is 1 exactly on the values of the set");
    const auto lb = f.lower_bound(V{p}), ub = f.upper_bound(V{p});
    for (auto i = f.begin(); i != f.end(); ++i) {
      SYM_ASSERT((i < lb) == (i->v < p), "lower_bound splits the smaller values from the others");
      SYM_ASSERT((i < ub) == (i->v <= p), "upper_bound splits the greater values from the others");
    }
    auto i = f.cbegin(); auto r = f.crend(); unsigned c = 0;
    for (; i != f.cend(); ++i, ++c) { --r; SYM_ASSERT(r->v == i->v, "reverse iteration is the reverse of iteration"); }
    SYM_ASSERT(r == f.crbegin() && c == f.size(), "both iterations visit every value");
  } else if (part == 1) { // insertion
    F g = f; unsigned ab[2 * M]; for (unsigned i = 0; i < n; ++i) ab[i] = a[i];
    for (unsigned i = 0; i < k; ++i) {
      const bool had = in(ab, n + i, b[i]);
      const auto r = g.insert(V{b[i]});
      ab[n + i] = b[i];
      SYM_ASSERT(r.second == !had, "insertion succeeds exactly on new values");
      SYM_ASSERT(r.first != g.end(), "insertion returns a position of the set");
      SYM_ASSERT(r.first->v == b[i], "insertion designates the inserted value");
      SYM_ASSERT(std::distance(g.begin(), r.first) >= 0 && std::distance(g.begin(), r.first) < (std::ptrdiff_t)g.size(), "insertion returns an iterator of the set");
      is(g, ab, n + i + 1, p);
      if (had) SYM_REACH("had"); else SYM_REACH("new");
    }
    is(f, a, n, p); // the original is untouched
    SYM_ASSERT((g == f) == (distinct(ab, n + k) == distinct(a, n)), "sets are equal exactly when nothing was added");
  } else if (part == 2) { // erasure
    F g = f; bool gone = false;
    for (unsigned i = 0; i < k; ++i) {
      const bool had = val_in(g, b[i]);
      const std::size_t c = g.erase(V{b[i]});
      SYM_ASSERT(c == (had ? 1u : 0u), "erase counts the erased values");
      gone = gone | (b[i] == p);
      SYM_ASSERT(val_in(g, p) == (in(a, n, p) & !gone), "erase removes exactly the value");
      SYM_ASSERT(increasing(g), "iteration is strictly increasing");
      SYM_ASSERT(g.empty() == (g == F()), "the empty set is unique");
      if (had) SYM_REACH("had"); else SYM_REACH("not");
    }
    is(f, a, n, p);
  } else { // algebra
    F g = make(b, k);
    const bool ia = in(a, n, p), ib = in(b, k, p);
    const F u = sum(f, g), i = intersection(f, g), d = difference(f, g);
    SYM_ASSERT(val_in(u, p) == (ia | ib), "union holds the values of either set");
    SYM_ASSERT(val_in(i, p) == (ia & ib), "intersection holds the common values");
    SYM_ASSERT(val_in(d, p) == (ia & !ib), "difference holds the values of the first set only");
    SYM_ASSERT(increasing(u) & increasing(i) & increasing(d), "iteration is strictly increasing");
    bool same = true; for (unsigned j = 0; j < n; ++j) same = same & in(b, k, a[j]); for (unsigned j = 0; j < k; ++j) same = same & in(a, n, b[j]);
    SYM_ASSERT((f == g) == same, "equal exactly when holding the same values");
    SYM_ASSERT((f != g) == !same, "!= is the negation of ==");
    SYM_ASSERT(i.empty() == (i == F()), "the empty set is unique");
    SYM_ASSERT(sum(d, i) == f, "difference and intersection recompose the set");
    SYM_ASSERT(sum(g, f) == u && intersection(g, f) == i, "union and intersection commute");
    if (same) { SYM_REACH("same"); SYM_ASSERT(std::hash<F>()(f) == std::hash<F>()(g), "equal sets hash equally"); }
    __symx_observe(u.size() * 100 + i.size() * 10 + d.size());
  }
  SYM_REACH("end");
}
