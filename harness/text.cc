// C34: what is written to a stream describes the object: the text is read back and compared with the inputs.
#include "cap.h"
#include <functional>
#include <memory>
#include <map>
// ---- reading text ---------------------------------------------------------------------------------
struct reading {
  const std::string& s; std::size_t i = 0; bool ok = true;
  explicit reading(const std::string& t) : s(t) {}
  bool at(const char* w) const { return s.compare(i, std::char_traits<char>::length(w), w) == 0; }
  bool eat(const char* w) { if (!at(w)) return false; i += std::char_traits<char>::length(w); return true; }
  void need(const char* w) { if (!eat(w)) ok = false; }
  void blank() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) ++i; }
  unsigned digits() { unsigned k = 0; if (i >= s.size() || s[i] < '0' || s[i] > '9') ok = false; while (i < s.size() && s[i] >= '0' && s[i] <= '9') k = 10 * k + unsigned(s[i++] - '0'); return k; }
  std::uint64_t num() { need("#"); const unsigned k = digits(); if (!ok || k >= NUMS().size()) { ok = false; return 0; } return NUMS()[k]; }
  bool end() const { return i == s.size(); }
  std::string word() { std::string r; while (i < s.size() && s[i] != ' ' && s[i] != ';' && s[i] != '[' && s[i] != '\n') { if (s[i] == '#') { const std::uint64_t v = num(); if (!ok) return r; r += std::to_string(v); } else r.push_back(s[i++]); } if (r.empty()) ok = false; return r; }
};
struct set { std::vector<std::pair<std::uint64_t, std::uint64_t>> r; // intervals
  unsigned times(std::uint64_t p) const { unsigned n = 0; for (auto& x : r) n += (x.first <= p) & (p <= x.second); return n; } };
static set values(reading& t) { // {1,3..5}
  set v; t.need("{");
  if (t.ok && !t.at("}")) do { const auto a = t.num(); v.r.emplace_back(a, t.eat("..") ? t.num() : a); } while (t.ok && t.eat(","));
  t.need("}"); return v;
}
// ---- DOT: statements name [attributes]; and name -> name [attributes]; ---------------------------
struct stmt { std::string a, b; std::map<std::string, std::string> at; set lab; bool haslab = false, isset = false; std::uint64_t num = 0; bool isnum = false; };
static bool attrs(reading& t, stmt& s) {
  t.blank();
  if (!t.eat("[")) return true;
  do { t.blank(); std::string k, v; while (t.i < t.s.size() && t.s[t.i] != '=' && t.s[t.i] != ']') k.push_back(t.s[t.i++]); t.need("=");
    if (t.eat("\"")) { if (k == "label") { s.haslab = true; if (t.at("{")) { s.lab = values(t); s.isset = true; } else if (t.at("#")) { s.num = t.num(); s.isnum = true; } } while (t.i < t.s.size() && t.s[t.i] != '"') v.push_back(t.s[t.i++]); t.need("\""); }
    else while (t.i < t.s.size() && t.s[t.i] != ',' && t.s[t.i] != ']') v.push_back(t.s[t.i++]);
    if (s.at.count(k)) t.ok = false; s.at[k] = v; t.blank();
  } while (t.ok && t.eat(","));
  t.need("]"); return t.ok;
}
struct graph { std::vector<stmt> nodes, edges;
  const stmt* find(const std::string& n) const { const stmt* r = nullptr; for (auto& s : nodes) if (s.a == n) { if (r) return nullptr; r = &s; } return r; } };
static graph dot_text(reading& t) {
  graph g; t.need("digraph "); t.word(); t.blank(); t.need("{"); t.blank();
  while (t.ok && !t.at("}") && !t.end()) {
    stmt s; s.a = t.word(); t.blank();
    if (t.eat("->")) { t.blank(); s.b = t.word(); attrs(t, s); g.edges.push_back(s); } else { attrs(t, s); g.nodes.push_back(s); }
    t.blank(); t.eat(";"); t.blank();
  }
  t.need("}"); t.blank(); return g;
}
#if defined(SETS)
#include <boost/container/flat_set.hpp>
namespace std { template <> struct hash<boost::container::flat_set<unsigned>> { size_t operator()(const boost::container::flat_set<unsigned>&) const noexcept { return 0; } }; } // every set collides
#include "hh.h"
struct FU : small<sdd::flat_set_default_configuration> { using Identifier = unsigned; using Values = sdd::values::flat_set<unsigned>; FU() { this->flat_set_unique_table_size = 1; } };
void harness_main() {
  const unsigned n = __sym_param("N", 3), p = sym_u8("p"); bool exp = false; std::string s;
  if (SETS == 0) { auto m = sdd::init(FU{}); std::vector<unsigned> l; for (unsigned i = 0; i < n; ++i) { const unsigned v = sym_u8("v"); l.push_back(v); exp = exp | (v == p); } const sdd::values::flat_set<unsigned> f(l.begin(), l.end()); s = text(f); }
  if (SETS == 1) { auto m = sdd::init(FS{}); sdd::values::flat_set<V> f; for (unsigned i = 0; i < n; ++i) { const unsigned v = sym_u8("v"); f.insert(V{v}); exp = exp | (v == p); } s = text(f); }
  if (SETS == 2) { const unsigned m = sym_u8("m"); exp = (p < 8) & (m >> (p & 7)); s = text(sdd::values::bitset<8>(std::bitset<8>(m))); }
  reading t(s); const set v = values(t);
  SYM_ASSERT(t.ok && t.end(), "a set is written as a list of values between braces");
  SYM_ASSERT(v.times(p) == (unsigned)exp, "the text of a set names its values, each of them once");
  __symx_observe(s.size());
  if (v.r.size() > 1) SYM_REACH("several"); SYM_REACH("end");
}
#elif defined(ORD)
#include "sym.h"
#include "sdd/sdd.hh"
struct Id { unsigned v; friend bool operator==(Id a, Id b) noexcept { return a.v == b.v; } friend bool operator<(Id a, Id b) noexcept { return a.v < b.v; } };
inline std::ostream& operator<<(std::ostream& o, Id a) { return o << a.v; }
namespace std { template <> struct hash<Id> { size_t operator()(Id) const noexcept { return 7; } }; }
struct C : sdd::default_configuration { using Identifier = Id; using Values = sdd::values::bitset<8>; };
using OB = sdd::order_builder<C>; using Ord = sdd::order<C>; using OI = sdd::order_identifier<C>;
#include "forest.h"
void harness_main() {
  const unsigned n = sym_pick("n", __sym_param("N", 4) + 1);
  const auto d = pick_shape(n);
  std::vector<unsigned> ids; for (unsigned i = 0; i < n; ++i) ids.push_back(sym_u32("id"));
  SYM_ASSUME(distinct(ids));
  unsigned i = 0; F f = from_depths(d, ids, i, 0);
  if (n > 1 && !f[0].sub.empty() && sym_pick("art", 2)) f[0].art = true;
  const OB b = build(f); const Ord o(b);
  std::vector<flatn> m; lay(f, -1, m);
  const std::string s = text(o); reading t(s);
  unsigned k = 0; std::vector<std::size_t> ind; // indentations of the enclosing levels
  while (t.ok && !t.end()) {
    std::size_t sp = 0; while (t.eat(" ")) ++sp;
    if (k >= n) { ++k; break; }
    const unsigned dep = d[k];
    SYM_ASSERT(dep == ind.size() ? ind.empty() || sp > ind.back() : sp == ind[dep], "the text of an order indents nested levels");
    ind.resize(dep); ind.push_back(sp);
    if (m[k].art) { t.need("@"); t.num(); t.need("@"); } else { const auto id = t.num(); SYM_ASSERT(t.ok && id == m[k].id, "the text of an order names every level, depth first"); }
    t.need(" ("); const auto v = t.num(); SYM_ASSERT(t.ok && v == m[k].var, "the text of an order gives the variables"); t.need(")"); t.need("\n"); ++k;
  }
  SYM_ASSERT(t.ok && k == n, "the text of an order has one line per level");
  __symx_observe(s.size());
  SYM_REACH("end");
}
#elif defined(HOMT)
#include "hshape.h"
#include "sdd/tools/dot/homomorphism.hh"
// the order of one list of levels, and its level of a given variable
struct where { Ord o; const Ord* find(std::uint64_t var, std::vector<Ord>& keep) const { for (Ord x = o; !x.empty(); x = x.next()) if (x.variable() == var) { keep.push_back(x); return &keep.back(); } return nullptr; } };
static std::vector<Ord>& KEEP() { static std::vector<Ord> v; v.reserve(64); return v; }
static Hom a_fun(const where& w, std::uint64_t var, std::uint64_t k, bool& ok) {
  const Ord* x = w.find(var, KEEP()); if (!x || k >= RELS().size() || !x->nested().empty()) { ok = false; return sdd::id<C>(); }
  return sdd::function<C>(w.o, x->identifier().user(), rel(RELS()[k]));
}
static where inside(const where& w, std::uint64_t var, unsigned& id, bool& ok) {
  const Ord* x = w.find(var, KEEP()); if (!x || x->nested().empty()) { ok = false; return w; }
  id = x->identifier().user(); return where{Ord(mk_nested(SH(), id))};
}
static D an_sdd(reading& t) { // var[{..} --> ..]
  if (t.eat("|1|")) return sdd::one<C>();
  if (t.eat("|0|")) return sdd::zero<C>();
  const unsigned v = (unsigned)t.num(); t.need("["); D r = sdd::zero<C>();
  do { if (t.at("{")) { const set s = values(t); unsigned m = 0; for (auto& i : s.r) m |= 1u << (i.first & 3); t.need(" --> "); if (!t.ok) return r; r = r + D(v, b4(m), an_sdd(t)); }
       else { const D n = an_sdd(t); t.need(" --> "); if (!t.ok) return r; r = r + D(v, n, an_sdd(t)); } } while (t.ok && t.eat(" || "));
  t.need("]"); return r;
}
static Hom a_hom(reading& t, const where& w);
static Hom a_prim(reading& t, const where& w) {
  if (!t.ok) return sdd::id<C>();
  if (t.eat("Id")) return sdd::id<C>();
  if (t.eat("fun(")) { const auto v = t.num(); t.need(", rel"); const auto k = t.num(); t.need(")"); return t.ok ? a_fun(w, v, k, t.ok) : sdd::id<C>(); }
  if (t.eat("@(")) { const auto v = t.num(); t.need(", "); unsigned id = 0; if (!t.ok) return sdd::id<C>(); const where n = inside(w, v, id, t.ok); if (!t.ok) return sdd::id<C>(); const Hom h = a_hom(t, n); t.need(")"); return sdd::local<C>(id, w.o, h); }
  if (t.eat("ite(")) { const Hom a = a_hom(t, w); t.need(","); t.blank(); const Hom b = a_hom(t, w); t.need(","); t.blank(); const Hom c = a_hom(t, w); t.need(")"); return t.ok ? sdd::if_then_else(a, b, c) : a; }
  if (t.eat("const(")) { const D x = an_sdd(t); t.need(")"); return sdd::constant<C>(x); }
  if (t.eat("cons(")) { const auto id = t.num(); t.need(", "); const set s = values(t); unsigned m = 0; for (auto& i : s.r) m |= 1u << (i.first & 3); t.need(", "); const Hom h = a_hom(t, w); t.need(")");
    for (Ord x = w.o; t.ok && !x.empty(); x = x.next()) if (x.identifier().user() == id) return sdd::cons(x, b4(m), h);
    t.ok = false; return h; }
  t.need("("); std::vector<Hom> v{a_hom(t, w)}; bool sum = false, inter = false;
  while (t.ok && (t.at(" + ") || t.at(" & "))) { if (t.eat(" + ")) sum = true; else { t.eat(" & "); inter = true; } v.push_back(a_hom(t, w)); }
  t.need(")"); if (sum && inter) t.ok = false;
  if (!t.ok) return v[0];
  if (sum) return sdd::sum<C>(w.o, v.begin(), v.end());
  if (inter) return sdd::intersection<C>(w.o, v.begin(), v.end());
  t.need("*"); return sdd::fixpoint(v[0]);
}
static Hom a_hom(reading& t, const where& w) { const Hom a = a_prim(t, w); if (t.ok && t.eat(" o ")) return sdd::composition(a, a_hom(t, w)); return a; }
static Hom from_dot(const graph& g, const std::string& nm, const where& w, bool& ok) {
  const Hom I = sdd::id<C>(); const stmt* d = g.find(nm);
  if (!d || !d->haslab) ok = false;
  if (!ok) return I;
  const std::string& l = d->at.at("label"); std::vector<const stmt*> e; for (auto& x : g.edges) if (x.a == nm) e.push_back(&x);
  const auto child = [&](const char* lab) -> Hom { const stmt* r = nullptr; for (auto x : e) { auto it = x->at.find("label"); if (it != x->at.end() && it->second == lab) { if (r) ok = false; r = x; } } if (!r) ok = false; return ok ? from_dot(g, r->b, w, ok) : I; };
  if (l == "id") { if (!e.empty()) ok = false; return I; }
  if (l == "o") { if (e.size() != 2) ok = false; const Hom a = child("l"), b = child("r"); return ok ? sdd::composition(a, b) : I; }
  if (l == "*") { if (e.size() != 1) { ok = false; return I; } const Hom a = from_dot(g, e[0]->b, w, ok); return ok ? sdd::fixpoint(a) : I; }
  if (l == "@") { if (e.size() != 1 || !e[0]->isnum) { ok = false; return I; } unsigned id = 0; const where n = inside(w, e[0]->num, id, ok); if (!ok) return I; const Hom a = from_dot(g, e[0]->b, n, ok); return ok ? sdd::local<C>(id, w.o, a) : I; }
  if (l == "+") { std::vector<Hom> v; for (auto x : e) { v.push_back(from_dot(g, x->b, w, ok)); if (!ok) return I; } if (v.size() < 2) { ok = false; return I; } return sdd::sum<C>(w.o, v.begin(), v.end()); }
  if (l == "ITE") { if (e.size() != 3) ok = false; const Hom a = child("if"), b = child("then"), c = child("else"); return ok ? sdd::if_then_else(a, b, c) : I; }
  reading t(l); if (!e.empty()) ok = false; const Hom f = a_prim(t, w); if (!t.ok || !t.end()) ok = false; return f;
}
void harness_main() {
  auto m = sdd::init(C{});
  SH() = __sym_param("SHAPE", 0); NL() = order_levels(SH());
  const Ord o(mk_order(SH())); const where w{o}; unsigned em[3] = {5, 6, 12}; for (unsigned l = 0; l < NL(); ++l) em[l] = (unsigned)__symx_input("em", 4);
  const D ex = cube_rec(o, em); const auto same = [&](const Hom& r, const Hom& h) { return r == h || r(o, ex) == h(o, ex); }; const unsigned md = __sym_param("MODE", 1);
  Hom h = sdd::id<C>();
  if (md == 100) { unsigned mm[3] = {(unsigned)__symx_input("m", 4), 2, 4}; SYM_ASSUME(mm[0] != 0); h = sdd::constant<C>(cube_rec(o, mm)); }
  else if (md == 101) { const unsigned k = (unsigned)__symx_input("m", 4); SYM_ASSUME(k != 0); const Hom n = sdd::cons(o.next(), b4(3), sdd::id<C>()); h = sdd::cons(o, b4(k), sym_pick("n", 2) ? n : sdd::id<C>()); }
  else h = mk(o, shape_of(md, __sym_param("KINDS", 5)));
  if (__sym_param("DOT", 0) == 0) {
    const std::string s = text(h); reading t(s); const Hom r = a_hom(t, w);
    SYM_ASSERT(t.ok && t.end(), "the text of a homomorphism is well formed");
    if (t.ok && t.end()) SYM_ASSERT(same(r, h), "the text of a homomorphism describes it: reading it back gives the same operation");
    __symx_observe(s.size());
  } else {
    const std::string s = text(sdd::tools::dot(h)); reading t(s); const graph g = dot_text(t);
    SYM_ASSERT(t.ok && t.end(), "the DOT of a homomorphism is well formed");
    bool decl = true; for (auto& a : g.nodes) decl = decl && g.find(a.a); for (auto& e : g.edges) decl = decl && g.find(e.a) && g.find(e.b);
    SYM_ASSERT(decl, "every node of the DOT is declared exactly once");
    std::vector<std::string> roots; for (auto& a : g.nodes) { bool r = true; for (auto& e : g.edges) r = r && e.b != a.a; if (r) roots.push_back(a.a); }
    SYM_ASSERT(roots.size() == 1, "the DOT of a homomorphism has one root");
    if (roots.size() != 1) return;
    bool ok = true; const Hom r = from_dot(g, roots[0], w, ok);
    SYM_ASSERT(ok, "the DOT of a homomorphism is the graph of one");
    if (ok) SYM_ASSERT(same(r, h), "the DOT of a homomorphism describes it: reading it back gives the same operation");
    __symx_observe(g.nodes.size());
  }
  SYM_REACH("end");
}
#else
#include "gen.h"
#include "sdd/tools/dot/sdd.hh"
// ---- an SDD: var[{..} --> succ || ..], |0|, |1| ---------------------------------------------------
struct tnode { int term = -1; std::uint64_t var = 0; struct arc { set flat; std::shared_ptr<tnode> nested, succ; }; std::vector<arc> arcs; };
static std::shared_ptr<tnode> sdd_text(reading& t) {
  auto n = std::make_shared<tnode>();
  if (t.eat("|0|")) { n->term = 0; return n; }
  if (t.eat("|1|")) { n->term = 1; return n; }
  n->var = t.num(); t.need("[");
  do { tnode::arc a; if (t.at("{")) a.flat = values(t); else a.nested = sdd_text(t); t.need(" --> "); if (t.ok) a.succ = sdd_text(t); n->arcs.push_back(a); } while (t.ok && t.eat(" || "));
  t.need("]"); return n;
}
static unsigned deep(const tnode& n) { return n.term >= 0 || n.arcs.empty() ? 0 : (n.arcs[0].nested ? deep(*n.arcs[0].nested) : 1) + deep(*n.arcs[0].succ); }
// in how many ways the point is described
static unsigned times(const tnode& n, const unsigned* p) {
  if (n.term >= 0) return (unsigned)n.term;
  unsigned r = 0;
  for (auto& a : n.arcs) if (a.nested) r += times(*a.nested, p) * times(*a.succ, p + deep(*a.nested)); else r += a.flat.times(p[0]) * times(*a.succ, p + 1);
  return r;
}
static bool no_zero(const tnode& n, bool top) { if (n.term == 0) return top; for (auto& a : n.arcs) { if (!no_zero(*a.succ, false)) return false; if (a.nested && !no_zero(*a.nested, false)) return false; } return true; }
struct vars_vis { // the variables, along the first arcs of x, for every arc of the text
  const tnode& n;
  bool operator()(const sdd::zero_terminal<C>&) const { return n.term == 0; }
  bool operator()(const sdd::one_terminal<C>&) const { return n.term == 1; }
  bool operator()(const sdd::flat_node<C>& x) const { bool r = n.term < 0 && n.var == x.variable(); for (auto& a : n.arcs) r = r && !a.nested && sdd::visit(vars_vis{*a.succ}, x.begin()->successor()); return r; }
  bool operator()(const sdd::hierarchical_node<C>& x) const { bool r = n.term < 0 && n.var == x.variable(); for (auto& a : n.arcs) r = r && a.nested && sdd::visit(vars_vis{*a.succ}, x.begin()->successor()) && sdd::visit(vars_vis{*a.nested}, x.begin()->valuation()); return r; }
};
static std::shared_ptr<tnode> from_dot(const graph& g, const std::string& nm, bool& ok) {
  auto n = std::make_shared<tnode>(); const stmt* d = g.find(nm);
  if (!d || !d->haslab) { ok = false; return n; }
  if (!d->isnum) { n->term = d->at.at("label") == "1" ? 1 : d->at.at("label") == "0" ? 0 : -1; if (n->term < 0) ok = false; for (auto& e : g.edges) if (e.a == nm) ok = false; return n; }
  n->var = d->num; // the identifier
  for (auto& e : g.edges) if (e.a == nm) {
    tnode::arc a;
    if (e.isset) { a.flat = e.lab; a.succ = from_dot(g, e.b, ok); }
    else { unsigned k = 0; for (auto& f : g.edges) if (f.a == e.b) { ++k; auto it = f.at.find("style"); if (it != f.at.end() && it->second == "dotted") a.nested = from_dot(g, f.b, ok); else a.succ = from_dot(g, f.b, ok); }
      if (k != 2 || !g.find(e.b) || !a.nested || !a.succ) { ok = false; return n; } }
    n->arcs.push_back(a); if (!ok) return n;
  }
  if (n->arcs.empty()) ok = false;
  return n;
}
using OB = sdd::order_builder<C>; using Ord = sdd::order<C>;
static OB lv(unsigned id, OB next = OB()) { next.push(id); return next; }
static OB ls(unsigned id, const OB& nested, OB next = OB()) { next.push(id, nested); return next; }
static OB order_of(unsigned s) {
  switch (s) {
    case 0: return lv(100); case 1: return lv(100, lv(101)); case 2: return lv(100, lv(101, lv(102))); case 3: return ls(110, lv(100)); case 4: return ls(110, lv(100), lv(101));
    case 5: return lv(100, ls(110, lv(101))); case 6: return ls(110, lv(100), ls(111, lv(101))); case 7: return ls(110, lv(100, lv(101))); case 8: return ls(112, ls(111, lv(100))); default: return ls(110, lv(100, lv(101)), lv(102));
  }
}
static bool ids(const tnode& n, const Ord& o) { // labels are the identifiers of the levels
  if (n.term >= 0) return o.empty();
  bool r = !o.empty() && n.var == o.identifier().user();
  for (auto& a : n.arcs) r = r && ids(*a.succ, o.next()) && (a.nested ? ids(*a.nested, o.nested()) : o.nested().empty());
  return r;
}
struct count { std::vector<D> seen; unsigned n = 0, arcs = 0; void go(const D& x); };
struct count_vis {
  count& c;
  void operator()(const sdd::zero_terminal<C>&) const {}
  void operator()(const sdd::one_terminal<C>&) const {}
  void operator()(const sdd::flat_node<C>& n) const { for (auto& a : n) { ++c.arcs; c.go(a.successor()); } }
  void operator()(const sdd::hierarchical_node<C>& n) const { for (auto& a : n) { c.arcs += 3; ++c.n; c.go(a.successor()); c.go(a.valuation()); } }
};
void count::go(const D& x) { for (auto& y : seen) if (y == x) return; seen.push_back(x); ++n; sdd::visit(count_vis{*this}, x); }
void harness_main() {
  auto m = sdd::init(C{});
  const unsigned nx = __sym_param("NX", 2); unsigned p[MAXL] = {0};
  setup(nx, nx, p);
  const D x = build(0, nx, 0);
  const bool exp = in_any(0, nx, p);
  if (__sym_param("DOT", 0) == 0) {
    const std::string s = text(x); reading t(s); const auto n = sdd_text(t);
    SYM_ASSERT(t.ok && t.end(), "the text of an SDD is well formed");
    SYM_ASSERT(sdd::visit(vars_vis{*n}, x), "the text of an SDD gives the variables of its levels");
    SYM_ASSERT(no_zero(*n, true), "the text of an SDD has no arc to |0|");
    SYM_ASSERT(times(*n, p) == (unsigned)exp, "the text of an SDD describes its assignments, each of them once");
    __symx_observe(s.size());
  } else {
    const Ord o(order_of(shape));
    const std::string s = text(sdd::tools::dot(x, o)); reading t(s); const graph g = dot_text(t);
    SYM_ASSERT(t.ok && t.end(), "the DOT of an SDD is well formed");
    bool decl = true; for (auto& a : g.nodes) decl = decl && g.find(a.a); for (auto& e : g.edges) decl = decl && g.find(e.a) && g.find(e.b);
    SYM_ASSERT(decl, "every node of the DOT is declared exactly once");
    std::vector<std::string> roots; for (auto& a : g.nodes) { bool r = true; for (auto& e : g.edges) r = r && e.b != a.a; if (r) roots.push_back(a.a); }
    SYM_ASSERT(roots.size() == 1, "the DOT of an SDD has one root");
    if (roots.size() != 1) return;
    bool ok = true; const auto n = from_dot(g, roots[0], ok);
    SYM_ASSERT(ok, "the DOT of an SDD is the graph of an SDD");
    if (!ok) return;
    if (!x.empty()) SYM_ASSERT(ids(*n, o), "the nodes of the DOT are labelled with the identifiers of their levels");
    count c; c.go(x);
    SYM_ASSERT(g.nodes.size() == c.n && g.edges.size() == c.arcs, "the DOT of an SDD has one node per node and one arc per arc");
    SYM_ASSERT(times(*n, p) == (unsigned)exp, "the DOT of an SDD describes its assignments, each of them once");
    __symx_observe(g.nodes.size());
  }
  SYM_REACH("end");
}
#endif
