// C31: the FORCE ordering, over every hypergraph of the bounds (which vertex belongs to which edge is symbolic).
#include "sym.h"
#include <functional>
#include "sdd/sdd.hh"
#include "sdd/order/strategies/force.hh"
#include <vector>
struct Id { unsigned v; friend bool operator==(Id a, Id b) noexcept { return a.v == b.v; } friend bool operator<(Id a, Id b) noexcept { return a.v < b.v; } };
inline std::ostream& operator<<(std::ostream& o, Id) { return o << "id"; }
namespace std { template <> struct hash<Id> { size_t operator()(Id) const noexcept { return 7; } }; }
struct C : sdd::default_configuration { using Identifier = Id; using Values = sdd::values::bitset<8>; };
void harness_main() {
  const unsigned N = __sym_param("N", 4), E = __sym_param("E", 2), IT = __sym_param("IT", 3), W = __sym_param("W", 0), CI = __sym_param("CI", 0); const std::uint64_t EFIX = __sym_param("EFIX", 0);
  std::vector<Id> ids; for (unsigned i = 0; i < N; ++i) ids.push_back(Id{CI ? 10 + i : sym_u32("id")});
  if (__sym_param("DUP", 0)) { // an identifier given twice
    bool due = false, th = false; for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < i; ++j) due = due | (ids[i].v == ids[j].v);
    try { sdd::force::hypergraph<C> g(ids.begin(), ids.end()); } catch (const std::runtime_error&) { th = true; }
    SYM_ASSERT(th == due, "a hypergraph refuses exactly the lists of identifiers with duplicates");
    if (th) SYM_REACH("refused"); SYM_REACH("end"); return;
  }
  for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < i; ++j) SYM_ASSUME(ids[i].v != ids[j].v);
  sdd::force::hypergraph<C> g(ids.begin(), ids.end());
  std::vector<std::vector<unsigned>> edges;
  for (unsigned e = 0; e < E; ++e) {
    const unsigned fx = (unsigned)(EFIX >> (8 * e)) & 0xff;
    const unsigned m = fx ? fx : sym_pick("edge", 1u << N);
    std::vector<unsigned> ix; std::vector<Id> v;
    for (unsigned i = 0; i < N; ++i) if (m >> i & 1) { ix.push_back(i); v.push_back(ids[i]); }
    const double w = W ? 1.0 + sym_pick("weight", 3) : 1.0;
    g.add_hyperedge(v.begin(), v.end(), w);
    if (!ix.empty()) edges.push_back(ix);
  }
  const bool rev = sym_pick("reverse", 2);
  const unsigned it = CI ? IT : sym_pick("iterations", IT + 1);
  sdd::force::worker<C> work(g, rev);
  const auto ob = work(it);
  // exactly the identifiers, each once
  std::vector<Id> out; for (auto b = ob; !b.empty(); b = b.next()) { SYM_ASSERT(b.nested().empty(), "FORCE gives a flat order"); SYM_ASSERT(!b.identifier().is_artificial(), "FORCE gives user identifiers"); out.push_back(b.identifier().user()); }
  SYM_ASSERT(out.size() == N, "FORCE keeps the number of identifiers");
  if (out.size() != N) return;
  std::vector<unsigned> pos(N);
  for (unsigned i = 0; i < N; ++i) { unsigned c = 0, p = 0; for (unsigned k = 0; k < N; ++k) { const bool e = out[k].v == ids[i].v; c += e; if (e) p = k; } SYM_ASSERT(c == 1, "FORCE gives every identifier exactly once"); pos[i] = p; }
  // the total span of what it returns is the smallest of those it went through
  unsigned total = 0;
  for (auto& e : edges) { unsigned lo = ~0u, hi = 0; for (unsigned i : e) { lo = std::min(lo, pos[i]); hi = std::max(hi, pos[i]); } total += hi - lo; }
  SYM_ASSERT(work.spans().size() == it, "FORCE makes the number of iterations asked for");
  bool best = true, one = work.spans().empty();
  for (double s : work.spans()) { best = best & ((double)total <= s); one = one | ((double)total == s); }
  SYM_ASSERT(best & one, "FORCE returns the order with the smallest span it went through");
  __symx_observe(total);
  if (it) SYM_REACH("iterated");
  SYM_REACH("end");
}
