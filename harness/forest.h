// Ordered forests of identifiers, the model of an order; Id, OB and OI are defined by the harness.
#pragma once
// ---- the model: an ordered forest ---------------------------------------------------------------
struct T { unsigned id; bool art; std::vector<T> sub; };
using F = std::vector<T>;
static F from_depths(const std::vector<unsigned>& d, const std::vector<unsigned>& ids, unsigned& i, unsigned lvl) {
  F r;
  while (i < d.size() && d[i] == lvl) { T t{ids[i], false, {}}; ++i; t.sub = from_depths(d, ids, i, lvl + 1); r.push_back(t); }
  return r;
}
static std::vector<unsigned> pick_shape(unsigned n) {
  std::vector<unsigned> d;
  for (unsigned i = 0; i < n; ++i) d.push_back(i == 0 ? 0 : sym_pick("depth", d.back() + 2));
  return d;
}
static OB build(const F& f) {
  OB b;
  for (auto it = f.rbegin(); it != f.rend(); ++it) {
    if (it->art) b.push(OI(), build(it->sub));
    else if (it->sub.empty()) b.push(Id{it->id});
    else b.push(Id{it->id}, build(it->sub));
  }
  return b;
}
static bool distinct(const std::vector<unsigned>& v) { bool r = true; for (unsigned i = 0; i < v.size(); ++i) for (unsigned j = 0; j < i; ++j) r = r & (v[i] != v[j]); return r; }
struct flatn { unsigned pos, var; int parent, next, nested; unsigned id; bool art; };
static int lay(const F& f, int parent, std::vector<flatn>& out) { // returns the index of the first
  int first = -1, prev = -1;
  for (unsigned k = 0; k < f.size(); ++k) {
    const int me = (int)out.size();
    out.push_back({(unsigned)me, (unsigned)(f.size() - 1 - k), parent, -1, -1, f[k].id, f[k].art});
    if (prev >= 0) out[prev].next = me; else first = me;
    const int nst = lay(f[k].sub, me, out);
    out[me].nested = nst;
    prev = me;
  }
  return first;
}
