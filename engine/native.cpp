// Native side of the harness API: replays one input assignment against the plainly compiled code.
#include "alloc.h"
#include <string>
#include <vector>
#include <cstdio>
#include <exception>
#include <typeinfo>
#include <new>
#include <unistd.h>
#define X extern "C"
struct In { std::string n; int bits; unsigned long long v; };
static std::vector<In> ins; static size_t nxt = 0; static bool started = false;
extern "C" void harness_main();
X uint64_t __symx_input(const char* name, int bits) {
  if (nxt < ins.size()) {
    char b[160]; snprintf(b, sizeof b, "%s#%zu", name, nxt);
    if (ins[nxt].n != b) { printf("DIVERGED expected %s got %s\n", ins[nxt].n.c_str(), b); fflush(stdout); _exit(4); }
    return ins[nxt++].v;
  }
  ++nxt; return 0;
}
X void __symx_assume(bool c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(3); } }
X void __symx_assert(bool c, const char* site) { if (!c) { printf("ASSERT-FAILED %s\n", site); fflush(stdout); _exit(1); } }
X void __symx_observe(uint64_t v) { printf("obs %llu\n", (unsigned long long)v); }
X uint64_t __sym_fix(uint64_t v) { return v; }
X void __sym_reach(const char* l) { if (getenv("SYM_TRACE")) printf("reach %s\n", l); }
X uint64_t __sym_tier() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
X uint64_t __sym_param(const char* n, uint64_t d) { std::string k = std::string("SYM_P_") + n; const char* e = getenv(k.c_str()); return e ? strtoull(e, 0, 10) : d; }
#ifdef SYM_ARENA
X uint64_t __sym_live_blocks() { return symalloc::live_blocks; }
static void* al(size_t n) { if (!started) { void* p = malloc(n ? n : 1); return p; } void* p = symalloc::alloc(n); if (!p) throw std::bad_alloc(); return p; }
static void fr(void* p) {
  if (!p) return;
  if (!symalloc::inArena(p)) { free(p); return; }
  int r = symalloc::dealloc(p);
  if (r) { printf("HEAP-ERROR %s\n", r == 1 ? "double free" : "invalid free"); fflush(stdout); _exit(2); }
}
void* operator new(size_t n) { return al(n); }
void* operator new[](size_t n) { return al(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return al(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return al(n); }
void operator delete(void* p) noexcept { fr(p); }
void operator delete[](void* p) noexcept { fr(p); }
void operator delete(void* p, size_t) noexcept { fr(p); }
void operator delete[](void* p, size_t) noexcept { fr(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { fr(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { fr(p); }
#else
X uint64_t __sym_live_blocks() { return 0; }
#endif
int main(int argc, char** argv) {
  if (argc > 1) {
    FILE* f = fopen(argv[1], "r"); char line[512];
    while (f && fgets(line, sizeof line, f)) {
      char n[300]; int b; unsigned long long v;
      if (sscanf(line, "input %299s %d %llu", n, &b, &v) == 3) ins.push_back({n, b, v});
    }
    if (f) fclose(f);
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  started = true;
  try { harness_main(); }
  catch (std::exception& e) { printf("UNCAUGHT %s: %s\n", typeid(e).name(), e.what()); fflush(stdout); _exit(1); }
  catch (...) { printf("UNCAUGHT\n"); fflush(stdout); _exit(1); }
  printf("DONE\n"); fflush(stdout);
  _exit(0);
}
