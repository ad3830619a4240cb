// C33: the numbers of nodes, arcs and bytes reported for an SDD, against a traversal of our own.  Operands as in ops.cc.
#include "gen.h"
#include "sdd/tools/sdd_statistics.hh"
// every distinct SDD below x, by handle
struct walk {
  std::vector<D> seen; bool zero = false, one = false; unsigned fn = 0, hn = 0; std::vector<std::pair<unsigned, unsigned>> arcs = std::vector<std::pair<unsigned, unsigned>>(64); unsigned long fa = 0, ha = 0;
  bool fresh(const D& x) { for (auto& y : seen) if (y == x) return false; seen.push_back(x); return true; }
  void go(const D& x);
};
struct walk_vis {
  walk& w;
  void operator()(const sdd::zero_terminal<C>&) const { w.zero = true; }
  void operator()(const sdd::one_terminal<C>&) const { w.one = true; }
  void operator()(const sdd::flat_node<C>& n) const { unsigned k = 0; for (auto& a : n) { ++k; w.go(a.successor()); } ++w.fn; w.fa += k; ++w.arcs[k].first; }
  void operator()(const sdd::hierarchical_node<C>& n) const { unsigned k = 0; for (auto& a : n) { ++k; w.go(a.successor()); w.go(a.valuation()); } ++w.hn; w.ha += k; ++w.arcs[k].second; }
};
void walk::go(const D& x) { if (fresh(x)) sdd::visit(walk_vis{*this}, x); }
void harness_main() {
  auto m = sdd::init(C{});
  const unsigned nx = __sym_param("NX", 2), ny = __sym_param("NY", 0); unsigned p[MAXL] = {0};
  setup(nx + ny, nx, p);
  D x = build(0, nx, 0); const D y = build(nx, ny, 0);
  if (__sym_param("TWIN", 0) && !x.empty()) { const D z = x; x = D(0, z, z); } // everything is reached twice
  walk w; w.go(x);
  const auto n = sdd::tools::nodes(x);
  SYM_ASSERT(n.first == w.fn && n.second == w.hn, "every distinct node is counted once, flat and hierarchical apart");
  const auto f = sdd::tools::arcs(x);
  bool ok = true; unsigned entries = 0; for (unsigned k = 0; k < w.arcs.size(); ++k) if (w.arcs[k].first || w.arcs[k].second) { ++entries; auto it = f.find(k); if (it == f.end()) ok = false; else ok = ok && it->second == w.arcs[k]; }
  SYM_ASSERT(ok && f.size() == entries, "nodes are grouped by their number of arcs");
  const auto t = sdd::tools::number_of_arcs(f);
  SYM_ASSERT(t.first == w.fa && t.second == w.ha, "the numbers of arcs add up");
  const std::size_t bytes = (w.zero ? sizeof(sdd::zero_terminal<C>) : 0) + (w.one ? sizeof(sdd::one_terminal<C>) : 0) + (w.fn + w.hn) * sizeof(typename D::unique_type)
    + w.fa * sizeof(typename sdd::flat_node<C>::arc_type) + w.ha * sizeof(typename sdd::hierarchical_node<C>::arc_type);
  SYM_ASSERT(sdd::tools::size(x) == bytes, "every node is measured once");
  const auto s = sdd::tools::statistics(x);
  SYM_ASSERT(s.bytes() == bytes && s.all_nodes() == n && s.all_arcs() == t && s.arcs_frequency() == f, "the statistics gather the same numbers");
  const auto s2 = sdd::tools::statistics(x - y); walk w2; w2.go(x - y);
  SYM_ASSERT(s2.all_nodes().first == w2.fn && s2.all_nodes().second == w2.hn && s2.all_arcs().first == w2.fa && s2.all_arcs().second == w2.ha, "the statistics of a result");
  __symx_observe(bytes);
  if (w.fn + w.hn > L + 1) SYM_REACH("shared");
  SYM_REACH("end");
}
