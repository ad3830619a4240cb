// C24: hash_table as a set.  Symbolic keys, symbolic hash of every key, symbolic sequence of insertions and removals.
#include "sym.h"
#include <cassert>
#include <algorithm>
#include <vector>
#include "sdd/mem/hash_table.hh"
static unsigned H[4];
struct el { sdd::mem::intrusive_member_hook<el> hook; unsigned key = 0; bool in = false;
  friend bool operator==(const el& a, const el& b) noexcept { return a.key == b.key; } };
struct key_t_ { unsigned key; };
static std::size_t h(unsigned k) { return H[k & 3]; }
namespace std {
template <> struct hash<el> { size_t operator()(const el& e) const noexcept { return h(e.key); } };
template <> struct hash<key_t_> { size_t operator()(const key_t_& e) const noexcept { return h(e.key); } };
}
static const unsigned N = 6;
static el e[N];
static el* model(unsigned key) { for (auto& x : e) if (x.in && x.key == key) return &x; return nullptr; }
static unsigned count() { unsigned r = 0; for (auto& x : e) r += x.in; return r; }
// forks: splits on the key and on the hash of every key
static void keys(unsigned n) {
  const unsigned hb = __sym_param("HB", 2);
  for (auto& x : H) x = sym_pick("h", 1u << hb);
  for (unsigned i = 0; i < n; ++i) e[i].key = i < 2 ? i : sym_pick("key", 4);
}
static void growing() {
  const unsigned n = __sym_param("N", 4), K = __sym_param("STEPS", 5);
  sdd::mem::hash_table<el> t(__sym_param("SIZE", 1));
  for (unsigned s = 0; s < K; ++s) {
    const unsigned i = sym_pick("i", n);
    el* m = model(e[i].key);
    if (e[i].in) { t.erase(&e[i]); e[i].in = false; e[i].hook.next = nullptr; SYM_REACH("erase"); }
    else {
      const auto r = t.insert(&e[i]);
      SYM_ASSERT(r.second == (m == nullptr), "an insertion succeeds exactly when no equal element is there");
      SYM_ASSERT(r.first == (m ? m : &e[i]), "an insertion returns the element that is in the table");
      if (r.second) e[i].in = true;
    }
    SYM_ASSERT(t.size() == count(), "the size is the number of elements");
  }
  if (t.nb_rehash() > 1) SYM_REACH("rehash");
  // every element is found, nothing else is
  for (unsigned k = 0; k < 4; ++k) {
    el probe; probe.key = k;
    el* m = model(k);
    const auto r = t.insert(&probe);
    SYM_ASSERT(r.second == (m == nullptr), "an element is found exactly when it was inserted and not removed");
    SYM_ASSERT(r.first == (m ? m : &probe), "the element found is the one inserted");
    if (r.second) t.erase(&probe);
    SYM_ASSERT(t.size() == count(), "the size is the number of elements");
  }
  unsigned disposed = 0, c = count();
  t.clear_and_dispose([&](el* x) { SYM_ASSERT(x->in, "only elements of the table are disposed, once"); x->in = false; ++disposed; });
  SYM_ASSERT(disposed == c, "clearing disposes of every element");
  SYM_ASSERT(t.size() == 0, "a cleared table is empty");
}
static void fixed() {
  const unsigned n = __sym_param("N", 4), K = __sym_param("STEPS", 5);
  using T = sdd::mem::hash_table<el, false>;
  T t(__sym_param("SIZE", 2));
  for (unsigned s = 0; s < K; ++s) {
    const unsigned i = sym_pick("i", n);
    el* m = model(e[i].key);
    if (e[i].in) { t.erase(&e[i]); e[i].in = false; e[i].hook.next = nullptr; SYM_REACH("erase"); }
    else {
      T::insert_commit_data c;
      const auto r = t.insert_check(key_t_{e[i].key}, [](const key_t_& a, const el& b) { return a.key == b.key; }, c);
      SYM_ASSERT(r.second == (m == nullptr), "an insertion check finds an element exactly when an equal one is there");
      if (m) SYM_ASSERT(r.first == m, "an insertion check returns the element that is in the table");
      if (r.second) { t.insert_commit(&e[i], c); e[i].in = true; }
    }
    SYM_ASSERT(t.size() == count(), "the size is the number of elements");
  }
  for (unsigned k = 0; k < 4; ++k) {
    T::insert_commit_data c; el* m = model(k);
    const auto r = t.insert_check(key_t_{k}, [](const key_t_& a, const el& b) { return a.key == b.key; }, c);
    SYM_ASSERT(r.second == (m == nullptr), "an element is found exactly when it was inserted and not removed");
    if (m) SYM_ASSERT(r.first == m, "the element found is the one inserted");
  }
  unsigned disposed = 0, c = count();
  t.clear_and_dispose([&](el* x) { SYM_ASSERT(x->in, "only elements of the table are disposed, once"); x->in = false; ++disposed; });
  SYM_ASSERT(disposed == c, "clearing disposes of every element");
  SYM_ASSERT(t.size() == 0, "a cleared table is empty");
  for (unsigned k = 0; k < 4; ++k) {
    T::insert_commit_data cc;
    SYM_ASSERT(t.insert_check(key_t_{k}, [](const key_t_& a, const el& b) { return a.key == b.key; }, cc).second, "nothing is found in a cleared table");
  }
}
void harness_main() {
  keys(__sym_param("N", 4));
  if (__sym_param("FIXED", 0)) fixed(); else growing();
  for (auto& x : e) __symx_observe(x.key);
  SYM_REACH("end");
}
