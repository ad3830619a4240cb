// Harness API.  The same harness source is compiled (a) to bitcode, instrumented and explored symbolically,
// (b) natively, for replaying solver models.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
std::uint64_t __symx_input(const char* name, int bits);      // fresh symbolic value
void          __symx_assert(bool c, const char* site);       // the property
void          __symx_assume(bool c);                         // stated bound / precondition
void          __symx_observe(std::uint64_t v);               // compared between symbolic and native run
std::uint64_t __sym_fix(std::uint64_t v);                    // split on every feasible value
void          __sym_reach(const char* label);                // reachability witness
std::uint64_t __sym_live_blocks();                           // live heap blocks (arena)
std::uint64_t __sym_tier();                                  // 0 quick, 1 thorough
std::uint64_t __sym_param(const char* name, std::uint64_t dflt);
void harness_main();
}
#define SYM_ASSERT(c, site) __symx_assert((c), site)
#define SYM_ASSUME(c) __symx_assume((c))
#define SYM_REACH(l) __sym_reach(l)
inline std::uint32_t sym_u32(const char* n) { return (std::uint32_t)__symx_input(n, 32); }
inline std::uint64_t sym_u64(const char* n) { return __symx_input(n, 64); }
inline std::uint8_t sym_u8(const char* n) { return (std::uint8_t)__symx_input(n, 8); }
inline bool sym_bool(const char* n) { return (__symx_input(n, 8) & 1) != 0; }
inline std::uint64_t sym_bits(const char* n, unsigned b) { return __symx_input(n, 64) & (b >= 64 ? ~0ull : ((1ull << b) - 1)); }
// a symbolic value in [0,n)
inline std::uint32_t sym_below(const char* nm, std::uint32_t n) { std::uint32_t v = sym_u32(nm); SYM_ASSUME(v < n); return v; }
// a choice in [0,n): forks
inline std::uint32_t sym_pick(const char* nm, std::uint32_t n) { return (std::uint32_t)__sym_fix(sym_below(nm, n)); }
