// C32: histories of initializations, copies and destructions of managers of four configurations, with SDDs kept alive meanwhile.
#include "hh.h"
struct FS2 : FS {};                       // shares its stateful type of values with FS
struct BS2 : BS {};                       // shares a stateless one with BS
static unsigned sv, pt;                   // a symbolic value, a symbolic point
static sdd::values::flat_set<V> mk(unsigned v, const sdd::values::flat_set<V>*) { return sdd::values::flat_set<V>{V{v}}; }
static sdd::values::bitset<8> mk(unsigned v, const sdd::values::bitset<8>*) { return sdd::values::bitset<8>(std::bitset<8>(1u << (v & 7))); }
static bool eqv(unsigned a, unsigned b, const sdd::values::flat_set<V>*) { return a == b; }
static bool eqv(unsigned a, unsigned b, const sdd::values::bitset<8>*) { return (a & 7) == (b & 7); }
struct conf_base {
  virtual ~conf_base() {}
  virtual bool live() = 0; virtual bool init() = 0; virtual void copy() = 0; virtual void drop(unsigned) = 0; virtual void use() = 0; virtual void more() = 0; virtual bool right() = 0; virtual void assign() = 0;
};
template <class C> struct conf : conf_base {
  using D = sdd::SDD<C>; using Vals = typename C::Values;
  std::vector<sdd::manager<C>> ms; std::vector<D> kept; bool in = false; unsigned long nodes = 0;
  conf() { ms.reserve(8); kept.reserve(4); }
  bool live() override { return !ms.empty(); }
  static bool e(unsigned v) { return eqv(v, pt, (Vals*)nullptr); }
  bool init() override {
    try {
      auto m = sdd::init(C{});
      SYM_ASSERT(!live(), "a second initialization is refused");
      SYM_ASSERT(m.sdd_stats().size == 2 && m.hom_stats().size == 1, "a new manager is empty");
      ms.push_back(std::move(m)); return true;
    } catch (const std::runtime_error&) { return false; }
  }
  void copy() override { ms.push_back(ms.front()); }
  void assign() override { ms.front() = ms.back(); ms.back() = ms.front(); sdd::manager<C> t(std::move(ms.back())); ms.back() = std::move(t); }
  void drop(unsigned first) override { if (ms.size() == 1) { kept.clear(); in = false; } if (first) ms.erase(ms.begin()); else ms.pop_back(); }
  static D lvl(unsigned v) { return D(0, mk(v, (Vals*)nullptr), sdd::one<C>()); }
  void use() override { kept.clear(); const D r = lvl(sv) + lvl(3); kept.push_back(r); in = e(sv) | e(3); const D s = r - lvl(sv); SYM_ASSERT(member<C>(s, &pt) == (e(3) & !e(sv)), "operations are right"); }
  void more() override { if (kept.empty()) kept.push_back(sdd::zero<C>()); sdd::order_builder<C> ob; ob.push(0); const sdd::order<C> o(ob); const D a(o, [](unsigned) { return mk(5, (Vals*)nullptr); }); kept[0] = sdd::sum<C>(o, {sdd::id<C>(), sdd::constant<C>(a)})(o, kept[0]); in = kept[0].empty() ? false : in | e(5); }
  bool right() override { return kept.empty() ? true : member<C>(kept[0], &pt) == in; }
};
void harness_main() {
  const unsigned steps = __sym_param("STEPS", 4), nc = __sym_param("NCONF", 4), nact = __sym_param("ACTS", 6); sv = sym_u8("v"); pt = sym_u8("p"); SYM_ASSUME((sv < 8) & (pt < 8));
  const auto before = __sym_live_blocks();
  {
    conf<FS> a; conf<FS2> b; conf<BS> c; conf<BS2> d; conf_base* cs[4] = {&a, &b, &c, &d}; const unsigned sel = __sym_param("FROM", 0);
    const auto idle = __sym_live_blocks();
    for (unsigned s = 0; s < steps; ++s) {
      const unsigned act = s == 0 ? 0 : sym_pick("act", nact), i = sel + sym_pick("c", nc); conf_base& k = *cs[i];
      if (act != 0 && !k.live()) continue; // these need a live manager
      switch (act) {
        case 0: {
          const bool due = !k.live() && !(i == 0 && b.live()) && !(i == 1 && a.live()); // the first two share a type of values with a state
          const auto blocks = __sym_live_blocks(); const bool ok = k.init();
          SYM_ASSERT(ok == due, "init() succeeds exactly when its configuration, and its stateful values, are not in use");
          if (!ok) { SYM_ASSERT(__sym_live_blocks() == blocks, "a refused initialization keeps nothing"); SYM_REACH("refused"); }
          break; }
        case 1: k.drop(s & 1); break;
        case 2: k.copy(); break;
        case 3: k.use(); break;
        case 4: k.more(); break;
        default: k.assign();
      }
      bool r = true, any = false; for (auto* x : cs) { r = r & x->right(); any = any || x->live(); }
      SYM_ASSERT(r, "every live SDD keeps its meaning");
      if (!any) { SYM_REACH("gone"); SYM_ASSERT(__sym_live_blocks() == idle, "nothing is kept once the last copies are gone"); }
    }
    for (auto* x : cs) if (x->live()) { x->use(); SYM_ASSERT(x->right(), "every live configuration works"); x->copy(); x->drop(1); SYM_ASSERT(x->right(), "a copy keeps the library alive"); }
    for (unsigned i = 0; i < 4; ++i) while (cs[i]->live()) cs[i]->drop(0);
    SYM_ASSERT(__sym_live_blocks() == idle, "nothing is kept once the last copies are gone, at the end");
    SYM_ASSERT(cs[sel]->init(), "initializing again works"); cs[sel]->use(); SYM_ASSERT(cs[sel]->right(), "a new manager works"); cs[sel]->drop(0);
  }
  SYM_ASSERT(__sym_live_blocks() == before, "everything is released");
  SYM_REACH("end");
}
