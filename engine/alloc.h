// Deterministic arena allocator shared by the symbolic runtime (rt.cpp) and the native replay (native.cpp).
// Fixed base address, red zones, freed-byte tracking; either never reuses memory ("quarantine") or
// reuses the most recently freed block of the same size class ("lifo").
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <sys/mman.h>

namespace symalloc {
static const uint64_t BASE = 0x200000000000ULL;
static const uint64_t SIZE = 2ULL << 30;
static const uint64_t SBASE = 0x300000000000ULL;
static const uint64_t MAGIC = 0x51ab0c0ffee5eedULL;
enum : uint8_t { UNUSED = 0, LIVE = 1, FREED = 2, RED = 3 };
struct Hdr { uint64_t magic; uint64_t size; };  // 16 bytes just before the block
static bool inited = false, lifo = false;
static uint64_t top;
static uint64_t live_blocks = 0, live_bytes = 0, total_allocs = 0;
static void* freelist[64][8];
static int mode_set = 0;

inline void init() {
  if (inited) return;
  inited = true;
  void* p = mmap((void*)BASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  void* q = mmap((void*)SBASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED || q == MAP_FAILED) { fprintf(stderr, "symalloc: mmap failed\n"); abort(); }
  top = BASE + 4096;
  const char* e = getenv("SYM_ALLOC");
  lifo = e && !strcmp(e, "lifo");
}
inline bool inArena(const void* p) { uint64_t a = (uint64_t)p; return a >= BASE && a < BASE + SIZE; }
inline uint8_t* st(const void* p) { return (uint8_t*)((uint64_t)p - BASE + SBASE); }
inline int cls(size_t n) { // exact classes for small sizes (by 16), then powers of two
  if (n <= 1008) return (int)(n >> 4);
  return -1;
}
inline void* alloc(size_t n, size_t al = 16) {
  init();
  if (n > (1ULL << 30)) return nullptr;
  size_t rn = (n + 15) & ~15ULL; if (rn == 0) rn = 16;
  if (lifo && al <= 16 && cls(rn) >= 0) {
    void*& f = freelist[cls(rn)][0];
    if (f) {
      void* p = f; f = *(void**)p;
      memset(st(p), LIVE, n); if (rn > n) memset(st(p) + n, RED, rn - n);
      ((Hdr*)p)[-1] = {MAGIC, n};
      memset(p, 0xCD, rn);
      ++live_blocks; live_bytes += n; ++total_allocs;
      return p;
    }
  }
  uint64_t p = top + 16 + 16;
  p = (p + al - 1) & ~(uint64_t)(al - 1);
  if (p + rn + 64 > BASE + SIZE) return nullptr;
  top = p + rn;
  ((Hdr*)p)[-1] = {MAGIC, n};
  memset(st((void*)(p - 32)), RED, 32);
  memset(st((void*)p), LIVE, n);
  memset(st((void*)(p + n)), RED, rn - n + 32);
  if (n <= (1 << 16)) memset((void*)p, 0xCD, n);
  ++live_blocks; live_bytes += n; ++total_allocs;
  return (void*)p;
}
// 0 ok, 1 double free, 2 invalid free
inline int dealloc(void* p) {
  Hdr* h = (Hdr*)p - 1;
  uint8_t s = *st(p);
  if (h->magic != MAGIC || (h->size && s != LIVE && s != FREED)) return 2;
  if (h->size && s == FREED) return 1;
  size_t n = h->size, rn = (n + 15) & ~15ULL; if (rn == 0) rn = 16;
  if (n) memset(st(p), FREED, n);
  --live_blocks; live_bytes -= n;
  if (n <= (1 << 16)) memset(p, 0xDD, n);
  if (lifo && cls(rn) >= 0 && ((uint64_t)p & 15) == 0) {
    void*& f = freelist[cls(rn)][0];
    *(void**)p = f; f = p;
  }
  return 0;
}
inline size_t blockSize(void* p) { return ((Hdr*)p - 1)->size; }
// 0 ok, otherwise the state of the offending byte
inline int check(const void* p, size_t n) {
  if (!inArena(p)) return 0;
  const uint8_t* s = st(p);
  for (size_t i = 0; i < n; ++i) if (s[i] != LIVE) return s[i] == UNUSED ? RED : s[i];
  return 0;
}
} // namespace symalloc
