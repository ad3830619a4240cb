// Symbolic runtime: shadow memory, SMT terms (Z3), path exploration by fork().
#include <z3.h>
#include "alloc.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <new>
#include <string>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <cxxabi.h>
#include <exception>

typedef Z3_ast S;
#define X extern "C" __attribute__((visibility("default")))

X S __sym_args[64]; S __sym_args[64];
X S __sym_ret[64]; S __sym_ret[64];
X void* __sym_call_target; void* __sym_call_target;
X void* __sym_ret_tag; void* __sym_ret_tag;
extern "C" const char* __sym_fn_names[];
extern "C" const uint32_t __sym_fn_count;
extern "C" const char __sym_ext_names[];
extern "C" void harness_main();

// ---------------------------------------------------------------- shared state
struct Named { char name[120]; std::atomic<uint64_t> n, sym; };
struct Shared {
  std::atomic<int> tokens;
  std::atomic<int> stop;
  std::atomic<uint64_t> paths, pruned, cut, inconclusive, forks, queries, qsat, qunsat, qunknown, solver_ns, branches, implied, concs, asserts,
      asserts_smt, cands, samples, maxdepth, procs, ticks, crash_unrec, inputs_max;
  std::atomic<int> nreach, nsite, nunsup, ncandsite;
  std::atomic<int> lock;
  Named reach[128], site[512], unsup[64], candsite[128];
  std::atomic<uint8_t> fnhit[1 << 16];
};
static Shared* SH;
static double t0, deadline;
static std::string outdir = "/tmp";
static int maxCands = 8, maxSamples = 64; static uint64_t sampleSeed = 1;
static uint64_t tickLimit = 200000000ull;
static bool traceOn = getenv("SYM_TRACE");
static bool holdsToken = false; static int depthv = 0;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void lk() { int e = 0; while (!SH->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(10); } }
static void ulk() { SH->lock = 0; }
static Named* named(Named* t, std::atomic<int>& n, int cap, const char* nm) {
  int k = n.load();
  for (int i = 0; i < k; ++i) if (!strncmp(t[i].name, nm, 119)) return &t[i];
  lk();
  k = n.load();
  for (int i = 0; i < k; ++i) if (!strncmp(t[i].name, nm, 119)) { ulk(); return &t[i]; }
  if (k >= cap) { ulk(); return &t[cap - 1]; }
  strncpy(t[k].name, nm, 119); t[k].n = 0; t[k].sym = 0;
  n = k + 1; ulk();
  return &t[k];
}

// ---------------------------------------------------------------- solver
static Z3_context C; static Z3_solver SV; static Z3_model MD; static bool inSolver = false;
static std::unordered_map<S, int>* decided;             // simplified cond -> 0/1
static std::unordered_map<S, uint64_t>* concd;
struct Input { std::string name; int bits; S e; };
static std::vector<Input>* inputs;
struct Obs { uint64_t c; S e; };
static std::vector<Obs>* obs;
static std::vector<S>* pcs;
static bool pathIncon = false;
static uint64_t ticks = 0;
static bool ready = false;

static Z3_sort bv(unsigned w) { static Z3_sort t[257]; if (!t[w]) t[w] = Z3_mk_bv_sort(C, w); return t[w]; }
static bool isBool(S e) { return Z3_get_sort_kind(C, Z3_get_sort(C, e)) == Z3_BOOL_SORT; }
static unsigned width(S e) { Z3_sort s = Z3_get_sort(C, e); return Z3_get_sort_kind(C, s) == Z3_BOOL_SORT ? 1 : Z3_get_bv_sort_size(C, s); }
static S num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(C, w >= 64 ? v : (v & ((1ull << w) - 1)), bv(w)); }
static S bconst(bool b) { return b ? Z3_mk_true(C) : Z3_mk_false(C); }
static S simp(S e) { return Z3_simplify(C, e); }
static S mkNot(S e) {
  Z3_lbool l = Z3_get_bool_value(C, e);
  if (l != Z3_L_UNDEF) return l == Z3_L_TRUE ? Z3_mk_false(C) : Z3_mk_true(C);
  if (Z3_get_ast_kind(C, e) == Z3_APP_AST) {
    Z3_app a = Z3_to_app(C, e);
    if (Z3_get_decl_kind(C, Z3_get_app_decl(C, a)) == Z3_OP_NOT) return Z3_get_app_arg(C, a, 0);
  }
  return Z3_mk_not(C, e);
}
static S toBV1(S b) { return Z3_mk_ite(C, b, num(1, 1), num(0, 1)); }
static S term(uint64_t c, S s, unsigned w) { if (s) return s; return w == 1 ? bconst(c & 1) : num(c, w); }
static S termw(uint64_t lo, uint64_t hi, S s, unsigned w) {
  if (s) return s;
  if (w <= 64) return term(lo, s, w);
  return simp(Z3_mk_concat(C, num(hi, w - 64), num(lo, 64)));
}
static void err(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(90);
}
static void initZ3() {
  if (ready) return;
  ready = true;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, err);
  const char* k = getenv("SYM_SOLVER");
  if (!k || !strcmp(k, "simple")) SV = Z3_mk_simple_solver(C);
  else SV = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  Z3_solver_inc_ref(C, SV);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  uint64_t rl = 30000000; if (getenv("SYM_RLIMIT")) rl = strtoull(getenv("SYM_RLIMIT"), 0, 10);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), (unsigned)rl);
  Z3_solver_set_params(C, SV, p);
  decided = new std::unordered_map<S, int>; concd = new std::unordered_map<S, uint64_t>;
  inputs = new std::vector<Input>; obs = new std::vector<Obs>; pcs = new std::vector<S>;
}
static Z3_lbool check() {
  inSolver = true;
  double a = now();
  Z3_lbool r = Z3_solver_check(C, SV);
  SH->solver_ns += (uint64_t)((now() - a) * 1e9);
  SH->queries++;
  inSolver = false;
  if (r == Z3_L_TRUE) SH->qsat++; else if (r == Z3_L_FALSE) SH->qunsat++; else { SH->qunknown++; pathIncon = true; }
  return r;
}
static void push() { Z3_solver_push(C, SV); }
static void pop() { Z3_solver_pop(C, SV, 1); }
static void setModel(Z3_model m) { if (m) Z3_model_inc_ref(C, m); MD = m; }
static void ensureModel() {
  if (MD) return;
  if (check() == Z3_L_TRUE) setModel(Z3_solver_get_model(C, SV));
}
static S evalm(Z3_model m, S e) { S r = 0; if (!Z3_model_eval(C, m, e, true, &r)) return 0; return r; }
static bool evalBool(Z3_model m, S e) { S r = evalm(m, e); return r && Z3_get_bool_value(C, r) == Z3_L_TRUE; }
static uint64_t numval(S e) { uint64_t v = 0; if (isBool(e)) return Z3_get_bool_value(C, e) == Z3_L_TRUE; Z3_get_numeral_uint64(C, e, &v); return v; }
static bool isNum(S e) { if (isBool(e)) return Z3_get_bool_value(C, e) != Z3_L_UNDEF; return Z3_is_numeral_ast(C, e); }
static uint64_t evalNum(Z3_model m, S e) { S r = evalm(m, e); return r ? numval(r) : 0; }
// ---- order closure: facts x<=y, x<y, x!=y between bit-vector terms taken from the path condition.  Decides
// (soundly) most branch conditions that are implied, without a solver call.
struct Ord {
  static const int N = 96;
  std::unordered_map<S, int> id; std::vector<S> t;
  uint8_t le[N][N], lt[N][N], ne[N][N];
  Ord() { memset(le, 0, sizeof le); memset(lt, 0, sizeof lt); memset(ne, 0, sizeof ne); }
  int node(S e, bool mk) {
    auto it = id.find(e); if (it != id.end()) return it->second;
    if (!mk || t.size() >= (size_t)N) return -1;
    int k = t.size(); id[e] = k; t.push_back(e);
    le[k][k] = 1;
    if (Z3_is_numeral_ast(C, e)) {
      uint64_t v = 0; unsigned w = width(e);
      if (w <= 64 && Z3_get_numeral_uint64(C, e, &v))
        for (int j = 0; j < k; ++j) if (Z3_is_numeral_ast(C, t[j]) && width(t[j]) == w) {
          uint64_t u = 0; Z3_get_numeral_uint64(C, t[j], &u);
          if (u < v) add(j, k, true); else if (v < u) add(k, j, true);
        }
    }
    return k;
  }
  void add(int a, int b, bool strict) { // a<=b or a<b
    int n = t.size();
    if (ne[a][b]) strict = true;
    std::vector<std::pair<int, int>> nw;
    for (int i = 0; i < n; ++i) if (le[i][a]) for (int j = 0; j < n; ++j) if (le[b][j]) {
      bool s = strict || lt[i][a] || lt[b][j] || ne[i][j];
      if (!le[i][j]) { le[i][j] = 1; }
      if (s) lt[i][j] = 1;
      if (s) { ne[i][j] = ne[j][i] = 1; }
    }
    propagate();
  }
  void propagate() {
    int n = t.size(); bool ch = true;
    while (ch) {
      ch = false;
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (ne[i][j]) {
        if (le[i][j] && !lt[i][j]) { lt[i][j] = 1; ch = true; }
        for (int k = 0; k < n; ++k) if (le[i][k] && le[k][i] && !ne[k][j]) { ne[k][j] = ne[j][k] = 1; ch = true; }
      }
      for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (le[i][k]) for (int j = 0; j < n; ++j) if (le[k][j]) {
        if (!le[i][j]) { le[i][j] = 1; ch = true; }
        if ((lt[i][k] || lt[k][j]) && !lt[i][j]) { lt[i][j] = 1; ne[i][j] = ne[j][i] = 1; ch = true; }
      }
    }
  }
};
static Ord* ordr;
static void mkOrd() { if (!ordr) ordr = new Ord; }
// shape: kind 0 eq, 1 ule
static bool atom(S c, int& kind, S& x, S& y, bool& neg) {
  neg = false;
  if (Z3_get_ast_kind(C, c) != Z3_APP_AST) return false;
  if (Z3_get_app_num_args(C, Z3_to_app(C, c)) == 0) return false;
  Z3_app a = Z3_to_app(C, c); Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, a));
  while (k == Z3_OP_NOT) { neg = !neg; c = Z3_get_app_arg(C, a, 0); if (Z3_get_ast_kind(C, c) != Z3_APP_AST) return false; a = Z3_to_app(C, c); k = Z3_get_decl_kind(C, Z3_get_app_decl(C, a)); if (Z3_get_app_num_args(C, a) == 0) return false; }
  x = Z3_get_app_arg(C, a, 0); y = Z3_get_app_num_args(C, a) == 2 ? Z3_get_app_arg(C, a, 1) : x;
  switch (k) {
    case Z3_OP_EQ: kind = 0; break;
    case Z3_OP_ULEQ: kind = 1; break;
    case Z3_OP_UGEQ: kind = 1; std::swap(x, y); break;
    case Z3_OP_ULT: kind = 1; std::swap(x, y); neg = !neg; break;   // x<y  <=>  !(y<=x)
    case Z3_OP_UGT: kind = 1; neg = !neg; break;                     // x>y  <=>  !(x<=y)
    default: return false;
  }
  return Z3_get_sort_kind(C, Z3_get_sort(C, x)) == Z3_BV_SORT;
}
// 1 implied true, 0 implied false, -1 not known
static int ordQuery(S c) { mkOrd();
  int k; S x, y; bool neg;
  if (!atom(c, k, x, y, neg)) return -1;
  int a = ordr->node(x, Z3_is_numeral_ast(C, x)), b = ordr->node(y, Z3_is_numeral_ast(C, y));
  if (a < 0 || b < 0) return -1;
  int r = -1;
  if (k == 0) { if (ordr->le[a][b] && ordr->le[b][a]) r = 1; else if (ordr->ne[a][b]) r = 0; }
  else { if (ordr->le[a][b]) r = 1; else if (ordr->lt[b][a]) r = 0; }
  return r < 0 ? -1 : (neg ? !r : r);
}
static void ordFact(S c) { mkOrd();
  int k; S x, y; bool neg;
  if (Z3_get_ast_kind(C, c) == Z3_APP_AST) {
    Z3_app a = Z3_to_app(C, c);
    if (Z3_get_decl_kind(C, Z3_get_app_decl(C, a)) == Z3_OP_AND) { for (unsigned i = 0; i < Z3_get_app_num_args(C, a); ++i) ordFact(Z3_get_app_arg(C, a, i)); return; }
  }
  if (!atom(c, k, x, y, neg)) return;
  int a = ordr->node(x, true), b = ordr->node(y, true);
  if (a < 0 || b < 0) return;
  if (k == 0) {
    if (!neg) { ordr->add(a, b, false); ordr->add(b, a, false); }
    else { ordr->ne[a][b] = ordr->ne[b][a] = 1; ordr->propagate(); }
  } else { if (!neg) ordr->add(a, b, false); else ordr->add(b, a, true); }
}
static void addPC(S c) { ordFact(c); Z3_solver_assert(C, SV, c); pcs->push_back(c); }

// ---------------------------------------------------------------- path bookkeeping
static void putFile(const std::string& fn, const std::string& s, bool app) {
  int fd = open(fn.c_str(), O_WRONLY | O_CREAT | (app ? O_APPEND : O_TRUNC), 0644);
  if (fd >= 0) { ssize_t r = write(fd, s.data(), s.size()); (void)r; close(fd); }
}
static std::string modelText(Z3_model m) {
  std::string r;
  for (auto& i : *inputs) {
    char b[64]; snprintf(b, sizeof b, " %d %llu\n", i.bits, (unsigned long long)(m ? evalNum(m, i.e) : 0));
    r += "input " + i.name + b;
  }
  return r;
}
static void candidate(const char* kind, const std::string& site, Z3_model m) {
  if (named(SH->candsite, SH->ncandsite, 128, (std::string(kind) + ":" + site).c_str())->n++ >= 4) return; // enough of these
  uint64_t id = SH->cands++;
  if (id >= (uint64_t)maxCands) { SH->stop = 1; return; }
  std::string t = std::string("kind ") + kind + "\nsite " + site + "\n" + modelText(m);
  char f[64]; snprintf(f, sizeof f, "/cand_%03llu.txt", (unsigned long long)id);
  putFile(outdir + f, t, false);
  if (id + 1 >= (uint64_t)maxCands) SH->stop = 1;
}
static void giveToken() { if (holdsToken) { holdsToken = false; SH->tokens++; } }
[[noreturn]] static void pathEnd(int code) {
  giveToken();
  _exit(code);
}
static void cutIfStop() {
  if (SH->stop || now() > deadline) { SH->cut++; pathEnd(0); }
}
static void finishPath() {
  if (pathIncon) SH->inconclusive++;
  uint64_t id = SH->paths++;
  // sampling of completed paths for the native cross-check
  uint64_t h = (id * 0x9E3779B97F4A7C15ull + sampleSeed * 0xD1B54A32D192ED03ull); h ^= h >> 29;
  bool take = id < (uint64_t)maxSamples / 2 || (h % 37 == 0);
  if (take && !pathIncon) {
    uint64_t k = SH->samples++;
    if (k < (uint64_t)maxSamples) {
      ensureModel();
      std::string t = "sample\n" + modelText(MD);
      for (auto& o : *obs) {
        char b[64]; snprintf(b, sizeof b, "obs %llu\n", (unsigned long long)(o.e ? evalNum(MD, o.e) : o.c));
        t += b;
      }
      t += "end\n";
      putFile(outdir + "/samples.txt", t, true);
    }
  }
  pathEnd(0);
}
// Fork; returns true in the child. The child explores the alternative.
static bool doFork(S why = nullptr) {
  SH->forks++;
  if (why && traceOn) { std::string t = Z3_ast_to_string(C, why); for (auto& ch : t) if (ch == '\n') ch = ' '; putFile(outdir + "/trace.txt", t + "\n", true); }
  int t = SH->tokens.load();
  bool got = false;
  while (t > 0 && !got) got = SH->tokens.compare_exchange_weak(t, t - 1);
  pid_t p;
  for (int tries = 0; (p = fork()) < 0; ++tries) { if (tries > 200) { SH->cut++; return false; } usleep(20000); }
  if (p == 0) {
    SH->procs++;
    holdsToken = got;
    ++depthv;
    uint64_t d = depthv, m = SH->maxdepth; while (d > m && !SH->maxdepth.compare_exchange_weak(m, d)) {}
    return true;
  }
  if (!got) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) SH->crash_unrec++;
    else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) SH->crash_unrec++;
  }
  ++depthv;
  return false;
}

// value of a condition already decided on this path, or -1
static int known(S c) {
  Z3_lbool l = Z3_get_bool_value(C, c);
  if (l != Z3_L_UNDEF) return l == Z3_L_TRUE;
  auto it = decided->find(c);
  if (it != decided->end()) return it->second;
  if (Z3_get_ast_kind(C, c) == Z3_APP_AST) {
    Z3_app a = Z3_to_app(C, c);
    Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, a));
    if (k == Z3_OP_NOT) { int r = known(Z3_get_app_arg(C, a, 0)); return r < 0 ? -1 : !r; }
    if (k == Z3_OP_AND || k == Z3_OP_OR) {
      bool all = true;
      for (unsigned i = 0, n = Z3_get_app_num_args(C, a); i < n; ++i) {
        int r = known(Z3_get_app_arg(C, a, i));
        if (r < 0) all = false;
        else if (r == (k == Z3_OP_OR)) return r;
      }
      return all ? (k == Z3_OP_AND) : -1;
    }
  }
  return ordQuery(c);
}
// replace the ites of e whose condition is already decided
static void collectIte(S e, std::unordered_map<S, int>& seen, std::vector<S>& out) {
  if (Z3_get_ast_kind(C, e) != Z3_APP_AST || !seen.emplace(e, 1).second || seen.size() > 400) return;
  Z3_app a = Z3_to_app(C, e);
  if (Z3_get_decl_kind(C, Z3_get_app_decl(C, a)) == Z3_OP_ITE) out.push_back(e);
  for (unsigned i = 0, n = Z3_get_app_num_args(C, a); i < n; ++i) collectIte(Z3_get_app_arg(C, a, i), seen, out);
}
static S resolve(S e) {
  for (;;) {
    std::unordered_map<S, int> seen; std::vector<S> ites;
    collectIte(e, seen, ites);
    bool ch = false;
    for (S i : ites) {
      Z3_app a = Z3_to_app(C, i);
      int k = known(Z3_get_app_arg(C, a, 0));
      if (k < 0) continue;
      S to = Z3_get_app_arg(C, a, k ? 1 : 2);
      e = simp(Z3_substitute(C, e, 1, &i, &to)); ch = true; break;
    }
    if (!ch) return e;
  }
}
static bool branchOn(S c) {
  { int q = known(c); if (q >= 0) { SH->implied++; return q; } }
  c = simp(c);
  Z3_lbool l = Z3_get_bool_value(C, c);
  if (l == Z3_L_TRUE) return true;
  if (l == Z3_L_FALSE) return false;
  auto it = decided->find(c);
  if (it != decided->end()) return it->second;
  SH->branches++;
  { int q = known(c); if (q >= 0) { SH->implied++; (*decided)[c] = q; return q; } }
  { S c2 = resolve(c);
    if (c2 != c) { int q = known(c2); if (q >= 0) { SH->implied++; (*decided)[c] = q; return q; } bool b = branchOn(c2); (*decided)[c] = b; return b; } }
  cutIfStop();
  ensureModel();
  bool b = evalBool(MD, c);
  S other = b ? Z3_mk_not(C, c) : c;
  push();
  Z3_solver_assert(C, SV, other);
  Z3_lbool r = check();
  if (r == Z3_L_FALSE && traceOn) { std::string t = Z3_ast_to_string(C, c); for (auto& ch : t) if (ch == '\n') ch = ' '; putFile(outdir + "/unsat.txt", t + "\n", true); }
  Z3_model m2 = 0;
  if (r == Z3_L_TRUE) { m2 = Z3_solver_get_model(C, SV); Z3_model_inc_ref(C, m2); }
  pop();
  if (r == Z3_L_TRUE) {
    if (doFork(c)) { // child: other side
      addPC(other); MD = m2; (*decided)[c] = !b;
      return !b;
    }
    cutIfStop();
  }
  addPC(b ? c : Z3_mk_not(C, c));
  (*decided)[c] = b;
  return b;
}
// some (ite c x y) inside e
static S findIte(S e, std::unordered_map<S, int>& seen) {
  if (Z3_get_ast_kind(C, e) != Z3_APP_AST || !seen.emplace(e, 1).second) return nullptr;
  Z3_app a = Z3_to_app(C, e);
  for (unsigned i = 0, n = Z3_get_app_num_args(C, a); i < n; ++i) if (S r = findIte(Z3_get_app_arg(C, a, i), seen)) return r;
  return Z3_get_decl_kind(C, Z3_get_app_decl(C, a)) == Z3_OP_ITE ? e : nullptr;
}
static uint64_t concretizeE(S e) {
  e = simp(e);
  if (isNum(e)) return numval(e);
  auto it = concd->find(e);
  if (it != concd->end()) return it->second;
  S e0 = e;
  for (;;) { // case split on the conditions inside first
    std::unordered_map<S, int> seen;
    S i = findIte(e, seen);
    if (!i) break;
    Z3_app a = Z3_to_app(C, i);
    S to = branchOn(Z3_get_app_arg(C, a, 0)) ? Z3_get_app_arg(C, a, 1) : Z3_get_app_arg(C, a, 2);
    e = simp(Z3_substitute(C, e, 1, &i, &to));
    if (isNum(e)) { uint64_t v = numval(e); (*concd)[e0] = v; return v; }
  }
  SH->concs++;
  for (;;) {
    cutIfStop();
    ensureModel();
    S val = evalm(MD, e);
    uint64_t v = numval(val);
    S eq = isBool(e) ? (v ? e : Z3_mk_not(C, e)) : Z3_mk_eq(C, e, val);
    S ne = simp(Z3_mk_not(C, eq));
    push(); Z3_solver_assert(C, SV, ne);
    Z3_lbool r = check();
    Z3_model m2 = 0;
    if (r == Z3_L_TRUE) { m2 = Z3_solver_get_model(C, SV); Z3_model_inc_ref(C, m2); }
    pop();
    if (r != Z3_L_TRUE) { addPC(eq); (*concd)[e] = v; return v; }
    if (doFork(ne)) { addPC(ne); MD = m2; continue; }
    cutIfStop();
    addPC(eq); (*concd)[e] = v;
    return v;
  }
}
static void incon(const char* why) {
  named(SH->unsup, SH->nunsup, 64, why)->n++;
  pathIncon = true;
}

// ---------------------------------------------------------------- shadow memory
struct Line { S e[64]; uint8_t i[64]; };
struct HE { uint64_t k; Line* v; };
static size_t HS = 1 << 12;
static HE* ht; static size_t hn = 0;
static uint64_t filt[1 << 14]; // filter over lines
static inline uint64_t hsh(uint64_t k) { k *= 0x9E3779B97F4A7C15ull; return k ^ (k >> 32); }
static Line* line(uint64_t k, bool mk) {
  uint64_t h = hsh(k);
  if (!(filt[(h >> 6) & ((1 << 14) - 1)] >> (h & 63) & 1)) { if (!mk) return nullptr; filt[(h >> 6) & ((1 << 14) - 1)] |= 1ull << (h & 63); }
  if (!ht) ht = (HE*)calloc(HS, sizeof(HE));
  size_t p = h & (HS - 1);
  while (ht[p].v) { if (ht[p].k == k) return ht[p].v; p = (p + 1) & (HS - 1); }
  if (!mk) return nullptr;
  if (++hn > HS / 2) {
    HE* o = ht; size_t on = HS; HS *= 4; ht = (HE*)calloc(HS, sizeof(HE));
    for (size_t i = 0; i < on; ++i) if (o[i].v) { size_t q = hsh(o[i].k) & (HS - 1); while (ht[q].v) q = (q + 1) & (HS - 1); ht[q] = o[i]; }
    free(o);
    p = h & (HS - 1); while (ht[p].v) p = (p + 1) & (HS - 1);
  }
  ht[p].k = k; ht[p].v = (Line*)calloc(1, sizeof(Line));
  return ht[p].v;
}
static bool anyShadow(const void* p, size_t n) {
  uint64_t a = (uint64_t)p, e = a + n;
  while (a < e) {
    Line* l = line(a >> 6, false);
    uint64_t stop = std::min(e, (a | 63) + 1);
    if (l) for (; a < stop; ++a) if (l->e[a & 63]) return true;
    a = stop;
  }
  return false;
}
static inline bool mayShadow(const void* p, size_t n) {
  uint64_t a = (uint64_t)p >> 6, e = ((uint64_t)p + n - 1) >> 6;
  for (; a <= e; ++a) if (line(a, false)) return true;
  return false;
}
static void clr(const void* p, size_t n) {
  if (!n) return;
  uint64_t a = (uint64_t)p, e = a + n;
  while (a < e) {
    Line* l = line(a >> 6, false);
    uint64_t stop = std::min(e, (a | 63) + 1);
    if (l) for (; a < stop; ++a) l->e[a & 63] = nullptr;
    a = stop;
  }
}
static S byteExpr(uint64_t a) {
  Line* l = line(a >> 6, false);
  if (!l || !l->e[a & 63]) return num(*(uint8_t*)a, 8);
  S e = l->e[a & 63]; unsigned i = l->i[a & 63];
  if (width(e) == 8) return e;
  return Z3_mk_extract(C, i * 8 + 7, i * 8, e);
}
static void setByte(uint64_t a, S e, unsigned i) { Line* l = line(a >> 6, true); l->e[a & 63] = e; l->i[a & 63] = i; }

static std::string hex(const void* p) { char b[32]; snprintf(b, 32, "%p", p); return b; }
[[noreturn]] static void bad(const char* kind, const std::string& site) {
  ensureModel();
  candidate(kind, site, MD);
  pathEnd(0);
}
static inline void memchk(const void* p, size_t n, const char* what) {
  int s = symalloc::check(p, n);
  if (__builtin_expect(s != 0, 0)) bad("mem", std::string(what) + (s == symalloc::FREED ? " of freed memory" : " out of bounds"));
}

// ---------------------------------------------------------------- hooks called by instrumented code
enum { // llvm::Instruction opcodes (LLVM 18)
  oAdd = 13, oSub = 15, oMul = 17, oUDiv = 19, oSDiv = 20, oURem = 22, oSRem = 23, oShl = 25, oLShr = 26, oAShr = 27, oAnd = 28, oOr = 29, oXor = 30
};
static bool lit(S e, uint64_t& v) { if (!Z3_is_numeral_ast(C, e) || width(e) > 64) return false; v = numval(e); return true; }
static S foldOr(S r, S a, S b) { return (Z3_is_numeral_ast(C, a) && Z3_is_numeral_ast(C, b)) ? simp(r) : r; }
static S binopE(uint32_t op, S a, S b, unsigned w) {
  if (w == 1) {
    Z3_lbool la = Z3_get_bool_value(C, a), lb = Z3_get_bool_value(C, b);
    if (la != Z3_L_UNDEF && lb == Z3_L_UNDEF && op != oSub) { std::swap(a, b); std::swap(la, lb); }
    switch (op) {
      case oAnd: case oMul:
        if (lb == Z3_L_TRUE || a == b) return a;
        if (lb == Z3_L_FALSE) return b;
        { S v[2] = {a, b}; return Z3_mk_and(C, 2, v); }
      case oOr:
        if (lb == Z3_L_FALSE || a == b) return a;
        if (lb == Z3_L_TRUE) return b;
        { S v[2] = {a, b}; return Z3_mk_or(C, 2, v); }
      case oXor: case oAdd: case oSub:
        if (lb == Z3_L_FALSE) return a;
        if (lb == Z3_L_TRUE) return mkNot(a);
        return Z3_mk_xor(C, a, b);
      default: incon("i1 op"); return a;
    }
  }
  uint64_t lv;
  if (lit(b, lv) && lv == 0 && (op == oAdd || op == oSub || op == oOr || op == oXor || op == oShl || op == oLShr || op == oAShr)) return a;
  if (lit(a, lv) && lv == 0 && (op == oAdd || op == oOr || op == oXor)) return b;
  if (lit(b, lv) && lv == 0 && (op == oAnd || op == oMul)) return b;
  if (lit(a, lv) && lv == 0 && (op == oAnd || op == oMul)) return a;
  if (0) {
    switch (op) {
      case oAnd: case oMul: { S v[2] = {a, b}; return simp(Z3_mk_and(C, 2, v)); }
      case oOr: { S v[2] = {a, b}; return simp(Z3_mk_or(C, 2, v)); }
      case oXor: case oAdd: case oSub: return simp(Z3_mk_xor(C, a, b));
      default: incon("i1 op"); return a;
    }
  }
  S r;
  switch (op) {
    case oAdd: r = Z3_mk_bvadd(C, a, b); break;
    case oSub: r = Z3_mk_bvsub(C, a, b); break;
    case oMul: r = Z3_mk_bvmul(C, a, b); break;
    case oUDiv: r = Z3_mk_bvudiv(C, a, b); break;
    case oSDiv: r = Z3_mk_bvsdiv(C, a, b); break;
    case oURem: r = Z3_mk_bvurem(C, a, b); break;
    case oSRem: r = Z3_mk_bvsrem(C, a, b); break;
    case oShl: r = Z3_mk_bvshl(C, a, b); break;
    case oLShr: r = Z3_mk_bvlshr(C, a, b); break;
    case oAShr: r = Z3_mk_bvashr(C, a, b); break;
    case oAnd: r = Z3_mk_bvand(C, a, b); break;
    case oOr: r = Z3_mk_bvor(C, a, b); break;
    case oXor: r = Z3_mk_bvxor(C, a, b); break;
    default: incon("binop"); return a;
  }
  return foldOr(r, a, b);
}
X S __sym_binop(uint32_t op, uint32_t w, uint64_t a, S sa, uint64_t b, S sb) {
  if (!sa && !sb) return nullptr;
  return binopE(op, term(a, sa, w), term(b, sb, w), w);
}
X S __sym_binop_w(uint32_t op, uint32_t w, uint64_t al, uint64_t ah, S sa, uint64_t bl, uint64_t bh, S sb) {
  if (!sa && !sb) return nullptr;
  return binopE(op, termw(al, ah, sa, w), termw(bl, bh, sb, w), w);
}
static S unzext(S e) { // bool b if e is (ite b 1 0)
  if (Z3_get_ast_kind(C, e) != Z3_APP_AST) return nullptr;
  Z3_app a = Z3_to_app(C, e);
  if (Z3_get_decl_kind(C, Z3_get_app_decl(C, a)) != Z3_OP_ITE) return nullptr;
  uint64_t x, y;
  if (!lit(Z3_get_app_arg(C, a, 1), x) || !lit(Z3_get_app_arg(C, a, 2), y)) return nullptr;
  if (x == 1 && y == 0) return Z3_get_app_arg(C, a, 0);
  return nullptr;
}
static S icmpE(uint32_t p, S a, S b, unsigned w) {
  if (w > 1) {
    if (a == b) return bconst(p == 32 || p == 35 || p == 37 || p == 39 || p == 41);
    uint64_t v;
    if ((p == 32 || p == 33) && lit(b, v) && v <= 1) if (S u = unzext(a)) return ((p == 32) == (v == 1)) ? u : mkNot(u);
  }
  if (w == 1) {
    S r;
    switch (p) {
      case 32: r = Z3_mk_iff(C, a, b); break;
      case 33: r = Z3_mk_xor(C, a, b); break;
      default: a = toBV1(a); b = toBV1(b); w = 0; r = 0;
    }
    if (w) return simp(r);
  }
  S r;
  switch (p) {
    case 32: r = Z3_mk_eq(C, a, b); break;
    case 33: r = mkNot(foldOr(Z3_mk_eq(C, a, b), a, b)); return r;
    case 34: r = Z3_mk_bvugt(C, a, b); break;
    case 35: r = Z3_mk_bvuge(C, a, b); break;
    case 36: r = Z3_mk_bvult(C, a, b); break;
    case 37: r = Z3_mk_bvule(C, a, b); break;
    case 38: r = Z3_mk_bvsgt(C, a, b); break;
    case 39: r = Z3_mk_bvsge(C, a, b); break;
    case 40: r = Z3_mk_bvslt(C, a, b); break;
    case 41: r = Z3_mk_bvsle(C, a, b); break;
    default: incon("icmp"); return bconst(false);
  }
  return foldOr(r, a, b);
}
X S __sym_icmp(uint32_t p, uint32_t w, uint64_t a, S sa, uint64_t b, S sb) {
  if (!sa && !sb) return nullptr;
  return icmpE(p, term(a, sa, w), term(b, sb, w), w);
}
X S __sym_icmp_w(uint32_t p, uint32_t w, uint64_t al, uint64_t ah, S sa, uint64_t bl, uint64_t bh, S sb) {
  if (!sa && !sb) return nullptr;
  return icmpE(p, termw(al, ah, sa, w), termw(bl, bh, sb, w), w);
}
static S castE(int k, S s, unsigned from, unsigned to) {
  if (from == to) return s;
  if (k == 2) {
    if (to == 1) if (S u = unzext(s)) return u;
    if (to == 1) return simp(Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, s), num(1, 1)));
    return simp(Z3_mk_extract(C, to - 1, 0, s));
  }
  if (from == 1) {
    if (Z3_get_bool_value(C, s) != Z3_L_UNDEF) return num(Z3_get_bool_value(C, s) == Z3_L_TRUE ? (k == 0 ? 1 : ~0ull) : 0, to);
    if (k == 0) return Z3_mk_ite(C, s, num(1, to), num(0, to));
    return simp(Z3_mk_ite(C, s, Z3_mk_bvnot(C, num(0, to)), num(0, to)));
  }
  if (S u = unzext(s)) if (k == 0) return Z3_mk_ite(C, u, num(1, to), num(0, to));
  return simp(k == 0 ? Z3_mk_zero_ext(C, to - from, s) : Z3_mk_sign_ext(C, to - from, s));
}
X S __sym_cast(uint32_t k, S s, uint32_t from, uint32_t to) { return s ? castE(k, s, from, to) : nullptr; }
X S __sym_select(uint8_t c, S sc, uint32_t w, uint64_t a, S sa, uint64_t b, S sb) {
  if (!sc) return (c & 1) ? sa : sb;
  { int k = known(sc); if (k >= 0) return k ? term(a, sa, w) : term(b, sb, w); }
  return simp(Z3_mk_ite(C, sc, term(a, sa, w), term(b, sb, w)));
}
X S __sym_select_w(uint8_t c, S sc, uint32_t w, uint64_t al, uint64_t ah, S sa, uint64_t bl, uint64_t bh, S sb) {
  if (!sc) return (c & 1) ? sa : sb;
  return simp(Z3_mk_ite(C, sc, termw(al, ah, sa, w), termw(bl, bh, sb, w)));
}
X uint8_t __sym_branch(uint8_t c, S s) { return s ? (uint8_t)branchOn(s) : (c & 1); }
X uint64_t __sym_conc(uint64_t v, S s, uint32_t w) { return s ? concretizeE(s) : v; }
X S __sym_conc_shadow(S s) { return s; }
X void __sym_divguard(uint64_t d, S s, uint32_t w) {
  if (!s) return;
  if (branchOn(Z3_mk_eq(C, s, num(0, w)))) bad("crash", "division by zero");
}
X S __sym_load(const void* p, uint64_t n, uint32_t bits) {
  memchk(p, n, "read");
  if (!mayShadow(p, n)) return nullptr;
  uint64_t a = (uint64_t)p;
  if (!anyShadow(p, n)) return nullptr;
  if (bits == 0) { incon("non-integer load of symbolic memory"); return nullptr; }
  Line* l = line(a >> 6, false);
  S e0 = l ? l->e[a & 63] : nullptr;
  S r = nullptr;
  if (e0 && l->i[a & 63] == 0 && width(e0) == n * 8) {
    bool same = true;
    for (uint64_t k = 1; k < n && same; ++k) {
      Line* q = line((a + k) >> 6, false);
      same = q && q->e[(a + k) & 63] == e0 && q->i[(a + k) & 63] == k;
    }
    if (same) r = e0;
  }
  if (!r) {
    r = byteExpr(a);
    for (uint64_t k = 1; k < n; ++k) r = Z3_mk_concat(C, byteExpr(a + k), r);
    r = simp(r);
  }
  if (bits < n * 8) r = castE(2, r, n * 8, bits);
  return r;
}
X void __sym_store(void* p, uint64_t n, S s, uint32_t bits) {
  memchk(p, n, "write");
  if (!s) { clr(p, n); return; }
  if (bits < n * 8) s = castE(0, s, bits, n * 8);
  for (uint64_t k = 0; k < n; ++k) setByte((uint64_t)p + k, s, k);
}
X void __sym_clear(void* p, uint64_t n) { clr(p, n); }
static void copyShadow(void* d, const void* s, uint64_t n) {
  if (!n) return;
  if (!mayShadow(s, n)) { clr(d, n); return; }
  std::vector<std::pair<S, uint8_t>> tmp(n);
  for (uint64_t k = 0; k < n; ++k) {
    uint64_t a = (uint64_t)s + k; Line* l = line(a >> 6, false);
    if (l) tmp[k] = {l->e[a & 63], l->i[a & 63]}; else tmp[k] = {nullptr, 0};
  }
  for (uint64_t k = 0; k < n; ++k) {
    uint64_t a = (uint64_t)d + k;
    if (tmp[k].first) setByte(a, tmp[k].first, tmp[k].second);
    else { Line* l = line(a >> 6, false); if (l) l->e[a & 63] = nullptr; }
  }
}
X void __sym_copy_shadow(void* d, const void* s, uint64_t n) { if (s) copyShadow(d, s, n); else clr(d, n); }
X void __sym_memcpy(void* d, const void* s, uint64_t n) {
  if (!n) return;
  memchk(s, n, "read"); memchk(d, n, "write");
  copyShadow(d, s, n); memmove(d, s, n);
}
X void __sym_memmove(void* d, const void* s, uint64_t n) { __sym_memcpy(d, s, n); }
X void* __sym_memcpy_r(void* d, const void* s, uint64_t n) { __sym_memcpy(d, s, n); return d; }
X void* __sym_memmove_r(void* d, const void* s, uint64_t n) { __sym_memcpy(d, s, n); return d; }
X void __sym_memset(void* d, uint8_t v, S sv, uint64_t n) {
  if (!n) return;
  memchk(d, n, "write");
  memset(d, v, n);
  if (!sv) { clr(d, n); return; }
  for (uint64_t k = 0; k < n; ++k) setByte((uint64_t)d + k, sv, 0);
}
X void* __symx_memset(void* d, int v, uint64_t n) {
  S sd = __sym_args[0], sv = __sym_args[1], sn = __sym_args[2];
  __sym_call_target = nullptr;
  if (sd) d = (void*)concretizeE(sd);
  if (sn) n = concretizeE(sn);
  __sym_memset(d, (uint8_t)v, sv ? castE(2, sv, 32, 8) : nullptr, n);
  __sym_ret[0] = nullptr; __sym_ret_tag = (void*)&__symx_memset;
  return d;
}
X int __symx_memcmp(const void* a, const void* b, uint64_t n) {
  S s0 = __sym_args[0], s1 = __sym_args[1], s2 = __sym_args[2];
  __sym_call_target = nullptr;
  if (s0) a = (void*)concretizeE(s0);
  if (s1) b = (void*)concretizeE(s1);
  if (s2) n = concretizeE(s2);
  __sym_ret[0] = nullptr; __sym_ret_tag = (void*)&__symx_memcmp;
  if (!n) return 0;
  memchk(a, n, "read"); memchk(b, n, "read");
  if (!anyShadow(a, n) && !anyShadow(b, n)) return memcmp(a, b, n);
  S r = num(0, 32);
  for (uint64_t k = n; k-- > 0;) {
    S x = byteExpr((uint64_t)a + k), y = byteExpr((uint64_t)b + k);
    r = Z3_mk_ite(C, Z3_mk_bvult(C, x, y), num(0xffffffffu, 32), Z3_mk_ite(C, Z3_mk_eq(C, x, y), r, num(1, 32)));
  }
  __sym_ret[0] = simp(r);
  return 0;
}
X uint64_t __sym_strlen(const char* s) { size_t n = strlen(s); if (anyShadow(s, n + 1)) incon("strlen of symbolic memory"); return n; }
X int __sym_strcmp(const char* a, const char* b) {
  if (anyShadow(a, strlen(a) + 1) || anyShadow(b, strlen(b) + 1)) incon("strcmp of symbolic memory");
  return strcmp(a, b);
}
namespace std { size_t _Hash_bytes(const void*, size_t, size_t); }
X uint64_t __symx_hash_bytes(const void* p, uint64_t n, uint64_t seed) {
  S s0 = __sym_args[0], s1 = __sym_args[1], s2 = __sym_args[2];
  __sym_call_target = nullptr;
  if (s0) p = (void*)concretizeE(s0);
  if (s1) n = concretizeE(s1);
  if (s2) seed = concretizeE(s2);
  __sym_ret[0] = nullptr; __sym_ret_tag = (void*)&__symx_hash_bytes;
  if (anyShadow(p, n)) { // split on every feasible content
    std::vector<uint8_t> v(n);
    for (uint64_t k = 0; k < n; ++k) v[k] = (uint8_t)concretizeE(byteExpr((uint64_t)p + k));
    return std::_Hash_bytes(v.data(), n, seed);
  }
  return std::_Hash_bytes(p, n, seed);
}
X S __sym_intr(uint32_t k, uint32_t w, uint64_t a, S sa, uint64_t b, S sb, uint64_t c, S sc) {
  if (!sa && !sb && !sc) return nullptr;
  S x = term(a, sa, w);
  switch (k) {
    case 0: { // ctpop
      S r = num(0, w);
      for (unsigned i = 0; i < w; ++i) r = Z3_mk_bvadd(C, r, w == 1 ? num(0, 1) : Z3_mk_zero_ext(C, w - 1, Z3_mk_extract(C, i, i, x)));
      return simp(r);
    }
    case 1: { S r = num(w, w); for (unsigned i = 0; i < w; ++i) r = Z3_mk_ite(C, Z3_mk_eq(C, Z3_mk_extract(C, i, i, x), num(1, 1)), num(w - 1 - i, w), r); return simp(r); }
    case 2: { S r = num(w, w); for (int i = (int)w - 1; i >= 0; --i) r = Z3_mk_ite(C, Z3_mk_eq(C, Z3_mk_extract(C, i, i, x), num(1, 1)), num(i, w), r); return simp(r); }
    case 3: { S y = term(b, sb, w); return simp(Z3_mk_ite(C, Z3_mk_bvult(C, x, y), x, y)); }
    case 4: { S y = term(b, sb, w); return simp(Z3_mk_ite(C, Z3_mk_bvult(C, x, y), y, x)); }
    case 5: { S y = term(b, sb, w); return simp(Z3_mk_ite(C, Z3_mk_bvslt(C, x, y), x, y)); }
    case 6: { S y = term(b, sb, w); return simp(Z3_mk_ite(C, Z3_mk_bvslt(C, x, y), y, x)); }
    case 7: return simp(Z3_mk_ite(C, Z3_mk_bvslt(C, x, num(0, w)), Z3_mk_bvneg(C, x), x));
    case 8: { S r = Z3_mk_extract(C, 7, 0, x); for (unsigned i = 1; i < w / 8; ++i) r = Z3_mk_concat(C, r, Z3_mk_extract(C, i * 8 + 7, i * 8, x)); return simp(r); }
    case 9: case 10: {
      S y = term(b, sb, w), z = term(c, sc, w);
      S m = Z3_mk_bvurem(C, z, num(w, w));
      S cc = Z3_mk_concat(C, x, y); S mm = Z3_mk_zero_ext(C, w, m);
      if (k == 9) return simp(Z3_mk_extract(C, 2 * w - 1, w, Z3_mk_bvshl(C, cc, mm)));
      return simp(Z3_mk_extract(C, w - 1, 0, Z3_mk_bvlshr(C, cc, mm)));
    }
    case 11: { S r = Z3_mk_extract(C, 0, 0, x); for (unsigned i = 1; i < w; ++i) r = Z3_mk_concat(C, r, Z3_mk_extract(C, i, i, x)); return simp(r); }
    case 12: { S y = term(b, sb, w); return simp(Z3_mk_ite(C, Z3_mk_bvult(C, x, y), num(0, w), Z3_mk_bvsub(C, x, y))); }
    case 13: { S y = term(b, sb, w); S s = Z3_mk_bvadd(C, x, y); return simp(Z3_mk_ite(C, Z3_mk_bvult(C, s, x), Z3_mk_bvnot(C, num(0, w)), s)); }
    case 20: { S y = term(b, sb, w); return simp(Z3_mk_bvult(C, Z3_mk_bvadd(C, x, y), x)); }
    case 21: { S y = term(b, sb, w); return simp(Z3_mk_bvult(C, x, y)); }
    case 22: { S y = term(b, sb, w); return simp(Z3_mk_not(C, Z3_mk_bvmul_no_overflow(C, x, y, false))); }
    case 23: { S y = term(b, sb, w); S q[2] = {Z3_mk_bvadd_no_overflow(C, x, y, true), Z3_mk_bvadd_no_underflow(C, x, y)}; return simp(Z3_mk_not(C, Z3_mk_and(C, 2, q))); }
    case 24: { S y = term(b, sb, w); S q[2] = {Z3_mk_bvsub_no_overflow(C, x, y), Z3_mk_bvsub_no_underflow(C, x, y, true)}; return simp(Z3_mk_not(C, Z3_mk_and(C, 2, q))); }
    case 25: { S y = term(b, sb, w); S q[2] = {Z3_mk_bvmul_no_overflow(C, x, y, true), Z3_mk_bvmul_no_underflow(C, x, y)}; return simp(Z3_mk_not(C, Z3_mk_and(C, 2, q))); }
    case 30: case 31: case 32: case 33: {
      S y = Z3_mk_zero_ext(C, 1, term(b, sb, w)); x = Z3_mk_zero_ext(C, 1, x);
      S ci = term(c, sc, 8);
      S cb = Z3_mk_ite(C, Z3_mk_eq(C, ci, num(0, 8)), num(0, w + 1), num(1, w + 1));
      S s = k < 32 ? Z3_mk_bvadd(C, Z3_mk_bvadd(C, x, y), cb) : Z3_mk_bvsub(C, Z3_mk_bvsub(C, x, y), cb);
      if (k & 1) return simp(Z3_mk_extract(C, w - 1, 0, s));
      return simp(Z3_mk_zero_ext(C, 7, Z3_mk_extract(C, w, w, s)));
    }
  }
  incon("intrinsic"); return nullptr;
}
X void __sym_ext(const char*) {}
X void __sym_extptr(const void* p, const char* nm) {
  uint64_t a = (uint64_t)p;
  if (a < 4096) return;
  if (!strncmp(nm, "_ZNSt9exceptionD", 16)) return; // destroys the base of an exception: reads nothing
  if (!strncmp(nm, "_ZNSt6locale", 12) || !strncmp(nm, "_ZNKSt6locale", 13) || !strncmp(nm, "_ZNSt8ios_base5imbue", 20)) { if (!anyShadow(p, 8)) return; } // a locale is one pointer
  if (anyShadow(p, 16)) { std::string s = std::string("external call sees symbolic memory: ") + nm; incon(s.c_str()); }
}
X void __sym_unsup(const char* w, S s) { if (s) incon(w); }
X void __sym_tick() {
  if (++ticks > tickLimit) bad("hang", "step limit");
  if ((ticks & 0xffff) == 0) cutIfStop();
}
X void __sym_fnhit(uint32_t id) {
  if (SH && id < (1 << 16)) SH->fnhit[id].store(1, std::memory_order_relaxed);
  __sym_tick();
}

// ---------------------------------------------------------------- allocation
X void* __sym_malloc(uint64_t n) { void* p = symalloc::alloc(n); if (p) clr(p, n); return p; }
X void* __sym_new(uint64_t n) { void* p = __sym_malloc(n); if (!p) throw std::bad_alloc(); return p; }
X void* __sym_new_nt(uint64_t n, const void*) { return __sym_malloc(n); }
X void* __sym_new_al(uint64_t n, uint64_t al) { void* p = symalloc::alloc(n, al < 16 ? 16 : al); if (!p) throw std::bad_alloc(); clr(p, n); return p; }
X void* __sym_calloc(uint64_t a, uint64_t b) { void* p = __sym_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
X void __sym_free(void* p) {
  if (!p) return;
  if (!symalloc::inArena(p)) { free(p); return; }
  int r = symalloc::dealloc(p);
  if (r) bad("mem", r == 1 ? "double free" : "invalid free");
}
X void __sym_free_sized(void* p, uint64_t) { __sym_free(p); }
X void __sym_free_nt(void* p, const void*) { __sym_free(p); }
X void __sym_free_al(void* p, uint64_t) { __sym_free(p); }
X void* __sym_realloc(void* p, uint64_t n) {
  if (!p) return __sym_malloc(n);
  if (!symalloc::inArena(p)) return realloc(p, n);
  void* q = __sym_malloc(n); if (!q) return q;
  uint64_t o = symalloc::blockSize(p); uint64_t m = o < n ? o : n;
  copyShadow(q, p, m); memcpy(q, p, m); __sym_free(p); return q;
}
X void* __sym_aligned_alloc(uint64_t al, uint64_t n) { void* p = symalloc::alloc(n, al < 16 ? 16 : al); if (p) clr(p, n); return p; }
X int __sym_posix_memalign(void** out, uint64_t al, uint64_t n) { *out = __sym_aligned_alloc(al, n); clr(out, 8); return *out ? 0 : ENOMEM; }
X void* __cxa_allocate_exception(size_t) noexcept;
X void* __sym_cxa_alloc(uint64_t n) { void* p = __cxxabiv1::__cxa_allocate_exception(n); clr(p, n); return p; }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (symalloc::inArena(p)) __sym_free(p); else free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ---------------------------------------------------------------- harness API
X uint64_t __symx_input(const char* name, int bits) {
  __sym_call_target = nullptr;
  initZ3();
  char b[160]; unsigned k = inputs->size();
  snprintf(b, sizeof b, "%s#%u", name, k);
  S e = Z3_mk_const(C, Z3_mk_string_symbol(C, b), bv(bits));
  inputs->push_back({b, bits, e});
  __sym_ret[0] = bits < 64 ? castE(0, e, bits, 64) : e;
  __sym_ret_tag = (void*)&__symx_input;
  return 0;
}
X void __symx_assume(bool c) {
  S s = __sym_args[0]; __sym_call_target = nullptr;
  if (!s) { if (!c) { SH->pruned++; pathEnd(0); } return; }
  s = simp(s);
  if (isNum(s)) { if (!numval(s)) { SH->pruned++; pathEnd(0); } return; }
  addPC(s);
  if (MD && evalBool(MD, s)) return;
  MD = nullptr;
  Z3_lbool r = check();
  if (r == Z3_L_TRUE) setModel(Z3_solver_get_model(C, SV));
  else if (r == Z3_L_FALSE) { SH->pruned++; pathEnd(0); }
}
X void __symx_assert(bool c, const char* site) {
  S s = __sym_args[0]; __sym_call_target = nullptr;
  Named* n = named(SH->site, SH->nsite, 512, site);
  n->n++; SH->asserts++;
  if (!s) { if (!c) bad("assert", site); return; }
  n->sym++; SH->asserts_smt++;
  s = simp(s);
  if (isNum(s)) { if (!numval(s)) bad("assert", site); return; }
  auto it = decided->find(s);
  if (it != decided->end() && it->second) return;
  push(); Z3_solver_assert(C, SV, Z3_mk_not(C, s));
  Z3_lbool r = check();
  if (r == Z3_L_TRUE) candidate("assert", site, Z3_solver_get_model(C, SV));
  pop();
  if (r == Z3_L_TRUE) { // continue on the values for which it holds
    addPC(s); MD = nullptr; (*decided)[s] = 1;
    if (check() != Z3_L_TRUE) pathEnd(0);
    setModel(Z3_solver_get_model(C, SV));
  } else if (r == Z3_L_FALSE) (*decided)[s] = 1;
}
X void __symx_observe(uint64_t v) {
  S s = __sym_args[0]; __sym_call_target = nullptr;
  initZ3();
  obs->push_back({v, s});
}
X uint64_t __sym_fix(uint64_t v) { return v; }
X void __sym_reach(const char* l) { named(SH->reach, SH->nreach, 128, l)->n++; }
X uint64_t __sym_live_blocks() { return symalloc::live_blocks; }
X uint64_t __sym_tier() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
X uint64_t __sym_param(const char* n, uint64_t d) { std::string k = std::string("SYM_P_") + n; const char* e = getenv(k.c_str()); return e ? strtoull(e, 0, 10) : d; }
X void __sym_assert_fail(const char* ex, const char* f, unsigned l, const char*) {
  const char* b = strrchr(f, '/'); b = b ? b + 1 : f;
  bad("crash", std::string("library assert failed: ") + ex + " in " + b);
}

// ---------------------------------------------------------------- main
static void onSig(int s) {
  if (inSolver || !ready) { SH->crash_unrec++; giveToken(); _exit(92); }
  const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGBUS ? "SIGBUS" : "signal";
  signal(s, SIG_DFL);
  bad("crash", n);
}
static std::string jesc(const char* s) { std::string r; for (; *s; ++s) { if (*s == '"' || *s == '\\') r += '\\'; if ((unsigned char)*s < 32) { r += ' '; continue; } r += *s; } return r; }

int main(int argc, char** argv) {
  t0 = now();
  if (getenv("SYM_OUT")) outdir = getenv("SYM_OUT");
  double budget = getenv("SYM_BUDGET") ? atof(getenv("SYM_BUDGET")) : 100;
  int par = getenv("SYM_PAR") ? atoi(getenv("SYM_PAR")) : 8;
  if (getenv("SYM_MAXCAND")) maxCands = atoi(getenv("SYM_MAXCAND"));
  if (getenv("SYM_SAMPLES")) maxSamples = atoi(getenv("SYM_SAMPLES"));
  if (getenv("VERIF_SEED")) sampleSeed = strtoull(getenv("VERIF_SEED"), 0, 10);
  if (getenv("SYM_TICKS")) tickLimit = strtoull(getenv("SYM_TICKS"), 0, 10);
  deadline = t0 + budget;
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  SH->tokens = par - 1;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  pid_t root = fork();
  if (root == 0) {
    setpgid(0, 0);
    SH->procs++;
    stack_t ss; ss.ss_sp = mmap(nullptr, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ss.ss_size = 64 << 20; ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) sigaction(s, &sa, nullptr);
    symalloc::init();
    initZ3();
    try {
      harness_main();
    } catch (std::exception& e) {
      const char* nm = typeid(e).name();
      bad("uncaught", std::string("uncaught exception ") + nm);
    } catch (...) {
      bad("uncaught", "uncaught exception");
    }
    finishPath();
  }
  setpgid(root, root);
  bool killed = false;
  for (;;) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p < 0 && errno == ECHILD) break;
    if (p > 0) { if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) SH->crash_unrec++; continue; }
    if (!killed && now() > deadline + 10) { killed = true; SH->cut++; kill(-root, SIGKILL); }
    usleep(500);
  }
  std::string j = "{\n";
  auto put = [&](const char* n, uint64_t v) { char b[96]; snprintf(b, 96, " \"%s\": %llu,\n", n, (unsigned long long)v); j += b; };
  put("paths", SH->paths); put("pruned", SH->pruned); put("cut", SH->cut); put("inconclusive", SH->inconclusive);
  put("forks", SH->forks); put("processes", SH->procs); put("queries", SH->queries); put("sat", SH->qsat); put("unsat", SH->qunsat); put("unknown", SH->qunknown);
  put("symbolic_branches", SH->branches); put("branches_implied_by_order_closure", SH->implied); put("concretizations", SH->concs); put("asserts", SH->asserts); put("asserts_smt", SH->asserts_smt);
  put("candidates", SH->cands); put("maxdepth", SH->maxdepth); put("crash_unrecorded", SH->crash_unrec); put("samples", std::min<uint64_t>(SH->samples, maxSamples));
  put("stopped", SH->stop);
  char b[128]; snprintf(b, 128, " \"solver_s\": %.3f,\n \"wall_s\": %.3f,\n", SH->solver_ns * 1e-9, now() - t0); j += b;
  auto tab = [&](const char* n, Named* t, int k) {
    j += std::string(" \"") + n + "\": {";
    for (int i = 0; i < k; ++i) { snprintf(b, 128, "\": [%llu, %llu]", (unsigned long long)t[i].n, (unsigned long long)t[i].sym); j += (i ? ", \"" : "\"") + jesc(t[i].name) + b; }
    j += "},\n";
  };
  tab("reach", SH->reach, SH->nreach); tab("sites", SH->site, SH->nsite); tab("unsupported", SH->unsup, SH->nunsup);
  j += " \"functions\": [";
  bool f = true; uint64_t tot = 0;
  for (uint32_t i = 0; i < __sym_fn_count && i < (1 << 16); ++i) if (SH->fnhit[i]) { ++tot; j += (f ? "\"" : ", \"") + jesc(__sym_fn_names[i]) + "\""; f = false; }
  j += "],\n";
  put("functions_instrumented", __sym_fn_count); put("functions_executed", tot);
  j += " \"externals\": [";
  { std::string e = __sym_ext_names, cur; bool g = true; for (char ch : e) { if (ch == '\n') { j += (g ? "\"" : ", \"") + jesc(cur.c_str()) + "\""; g = false; cur.clear(); } else cur += ch; } }
  j += "]\n}\n";
  putFile(outdir + "/summary.json", j, false);
  return 0;
}
