// C25: blocks of the temporary arena.  Symbolic block sizes, arena of SIZE bytes, symbolic sequence of STEPS actions.
#include "sym.h"
#include <cassert>
#include <cstring>
#include <memory>
#include <new>
#include <vector>
#include "sdd/mem/linear_alloc.hh"
using namespace sdd::mem;
struct blk { char* p; unsigned n; bool live; };
static blk b[8]; static unsigned nb = 0;
static char* lo; static unsigned size;
static bool heap_ok(char* p, unsigned n) { return (p + n <= lo) | (p >= lo + size); }
static unsigned any_size() { const unsigned n = (unsigned)__symx_input("n", 8); SYM_ASSUME(((n & 6) == 0) & (n <= 33)); return n; } // 0,1,8,9,...,32,33
static void add(arena& a, unsigned n) {
  char* p = linear_alloc<char>(a).allocate(n);
  const bool inbuf = (p >= lo) & (p + n <= lo + size);
  SYM_ASSERT(inbuf | heap_ok(p, n), "a block lies inside the buffer or outside of it");
  for (unsigned i = 0; i < nb; ++i) if (b[i].live)
    SYM_ASSERT((n == 0) | (b[i].n == 0) | (p + n <= b[i].p) | (b[i].p + b[i].n <= p), "live blocks do not overlap");
  b[nb++] = blk{p, n, true};
}
static void steps(arena& a, unsigned k, unsigned depth) {
  const unsigned base = nb;
  for (; k > 0; --k) {
    switch (sym_pick("act", depth < 2 ? 3 : 2)) {
      case 0: if (nb < 8) add(a, any_size()); break;
      case 1: {
        if (nb == 0) break;
        const unsigned i = sym_pick("i", nb);
        if (!b[i].live || i < base) break; // only blocks of the current mark are given back here
        linear_alloc<char>(a).deallocate(b[i].p, b[i].n); b[i].live = false;
        break;
      }
      default: {
        const char* before = a.position();
        const unsigned keep = nb;
        {
          rewinder r(a);
          steps(a, k - 1, depth + 1);
          for (unsigned i = keep; i < nb; ++i) if (b[i].live) { // heap blocks are given back by their owner
            linear_alloc<char>(a).deallocate(b[i].p, b[i].n);
            b[i].live = false;
          }
        }
        SYM_ASSERT(a.position() == before, "rewinding gives back exactly what was allocated since the mark");
        nb = keep; SYM_REACH("rewound");
        if (depth == 0) { add(a, any_size()); }
        return;
      }
    }
  }
}
void harness_main() {
  size = __sym_param("SIZE", 64);
  const std::uint64_t live0 = __sym_live_blocks();
  {
    arena a(size);
    lo = a.position();
    const unsigned K = __sym_param("STEPS", 4);
    {
      rewinder top(a);
      steps(a, K, 0);
      for (unsigned i = 0; i < nb; ++i) if (b[i].live) linear_alloc<char>(a).deallocate(b[i].p, b[i].n);
    }
    SYM_ASSERT(a.position() == lo, "everything is given back at the end");
  }
  SYM_ASSERT(__sym_live_blocks() == live0, "no heap block is lost");
  SYM_REACH("end");
}
