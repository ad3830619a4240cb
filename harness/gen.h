// Operands made of cubes with symbolic valuations, shared by the harnesses on SDDs.
// Parameters: SHAPE; WIDE values per valuation (FS); VB bits per value; CONC, SING restrict levels; SEP gives each level a disjoint range of values.
#pragma once
#include "hh.h"
using C = CFG; using D = sdd::SDD<C>; using Vals = C::Values;
static const unsigned MAXC = 6, MAXL = 4;
static unsigned L;                          // flat levels
static unsigned a[MAXC][MAXL][2];           // FS: up to two values; BS: [0] is the bit mask
static unsigned wide, shape;
using FSV = sdd::values::flat_set<V>; using BSV = sdd::values::bitset<8>;
static FSV mk(unsigned k, unsigned l, const FSV*) { return wide > 1 ? FSV{V{a[k][l][0]}, V{a[k][l][1]}} : FSV{V{a[k][l][0]}}; }
static BSV mk(unsigned k, unsigned l, const BSV*) { return BSV(std::bitset<8>(a[k][l][0])); }
static Vals val(unsigned k, unsigned l) { return mk(k, l, (Vals*)nullptr); }
static bool has(unsigned k, unsigned l, unsigned p, const sdd::values::flat_set<V>*) { return wide > 1 ? ((a[k][l][0] == p) | (a[k][l][1] == p)) : a[k][l][0] == p; }
static bool has(unsigned k, unsigned l, unsigned p, const sdd::values::bitset<8>*) { return ((a[k][l][0] >> p) & 1) != 0; }
static bool in_cube(unsigned k, const unsigned* p) { bool r = true; for (unsigned l = 0; l < L; ++l) r = r & has(k, l, p[l], (Vals*)nullptr); return r; }
static D cube(unsigned k) {
  const D one = sdd::one<C>();
  switch (shape) {
    case 0: return D(0, val(k, 0), one);
    case 1: return D(1, val(k, 0), D(0, val(k, 1), one));
    case 2: return D(2, val(k, 0), D(1, val(k, 1), D(0, val(k, 2), one)));
    case 3: return D(0, D(0, val(k, 0), one), one);                                            // nested one level
    case 4: return D(1, D(0, val(k, 0), one), D(0, val(k, 1), one));                           // nested, then flat
    case 5: return D(1, val(k, 0), D(0, D(0, val(k, 1), one), one));                           // flat, then nested
    case 6: return D(1, D(0, val(k, 0), one), D(0, D(0, val(k, 1), one), one));                // two nested
    case 7: return D(0, D(1, val(k, 0), D(0, val(k, 1), one)), one);                           // two levels nested
    case 8: return D(0, D(0, D(0, val(k, 0), one), one), one);                                 // depth three
    default: return D(1, D(1, val(k, 0), D(0, val(k, 1), one)), D(0, val(k, 2), one));
  }
}
static unsigned nlevels() { static const unsigned t[] = {1, 2, 3, 1, 2, 2, 2, 2, 1, 3}; return t[shape]; }
static D build(unsigned from, unsigned n, unsigned how) {
  if (n == 0) return sdd::zero<C>();
  if (how == 0) { D r = cube(from); for (unsigned i = 1; i < n; ++i) r = r + cube(from + i); return r; }
  if (how == 1) { D r; for (unsigned i = n; i-- > 0;) r = cube(from + i) + r; return r; }
  std::vector<D> v; for (unsigned i = 0; i < n; ++i) v.push_back(cube(from + i));
  return sdd::sum<C>(v.begin(), v.end());
}
static bool in_any(unsigned from, unsigned n, const unsigned* p) { bool r = false; for (unsigned i = 0; i < n; ++i) r = r | in_cube(from + i, p); return r; }
static bool fs, sep;
// total cubes, of which the first nx make x; p: a symbolic point
static void setup(unsigned total, unsigned nx, unsigned* p) {
  shape = __sym_param("SHAPE", 1); wide = __sym_param("WIDE", 1);
  sep = __sym_param("SEP", 0); fs = std::is_same<Vals, sdd::values::flat_set<V>>::value;
  L = nlevels(); const unsigned conc = __sym_param("CONC", 0); const unsigned vb = __sym_param("VB", 8); const unsigned sing = __sym_param("SING", 0), high = __sym_param("HIGH", 0); // HIGH: one concrete value of three and any of two others, in the cubes of x
    for (unsigned l = 0; l < L; ++l) {
    if (fs) { p[l] = (unsigned)__symx_input("p", ((conc >> (2 * l)) & 3) ? 16 : vb); for (unsigned k = 0; k < total; ++k) for (unsigned j = 0; j < wide; ++j) { // CONC: levels whose values are concrete, distinct per cube (1) or shared by every second (2) or third (3) cube
      if ((conc >> (2 * l)) & 3) { a[k][l][j] = 1000 * (l + 1) + 10 * (((conc >> (2 * l)) & 3) == 1 ? k : ((conc >> (2 * l)) & 3) == 2 ? k % 2 : k % 3) + j; continue; }
      a[k][l][j] = (unsigned)__symx_input("a", vb); if (sep) SYM_ASSUME((a[k][l][j] >> (vb - 2)) == l); } }
    else { // SING: levels whose masks hold exactly one value
      p[l] = sym_below("p", 8);
      const unsigned cm = (conc >> (2 * l)) & 3; // CONC: 1 one concrete value per cube, 2 one of two, 3 a concrete pair of values in the cubes of x only
      for (unsigned k = 0; k < total; ++k) { if (cm == 1 || cm == 2) { a[k][l][0] = 1u << (cm == 1 ? k : k % 2); continue; } if (cm == 3 && (k < nx || high)) { a[k][l][0] = k < nx ? 3u << (2 * k) : 0xF7; continue; }
        unsigned w = sym_u8("a"); if (((high >> l) & 1) && k < nx) w = (1u << (k % 3)) | (w & 0xC0); a[k][l][0] = w; if ((sing >> l) & 1) SYM_ASSUME((w != 0) & ((w & (w - 1)) == 0)); }
    }
  }
}
