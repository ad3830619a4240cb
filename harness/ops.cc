// Set operations on SDDs with symbolic valuations (C01, C02, C03, C04).
// -DCFG=FS (flat_set of 32-bit values) or BS (bitset<8>).
// Parameters: OP 0 union, 1 intersection, 2 difference, 3 canonicity; SHAPE; NX, NY, NZ cubes per operand; WIDE values per
// valuation (FS); VB bits per value; CONC, SING restrict levels; ENTRY which public entry point; SEP restricts each level to a disjoint range of values.
#include "gen.h"
void harness_main() {
  auto m = sdd::init(C{});
  const unsigned op = __sym_param("OP", 0), entry = __sym_param("ENTRY", 0), nx = __sym_param("NX", 2), ny = __sym_param("NY", 2), nz = __sym_param("NZ", 0);
  unsigned p[MAXL] = {0};
  setup(nx + ny + nz, nx, p);
  const D x = build(0, nx, 0), y = build(nx, ny, 0), z = build(nx + ny, nz, 0);
  const bool ix = in_any(0, nx, p), iy = in_any(nx, ny, p), iz = in_any(nx + ny, nz, p);
  SYM_ASSERT(member(x, p) == ix, "operand built by unions contains exactly its cubes");
  if (op == 0) {
    D r;
    switch (entry) {
      case 0: r = x + y; break;
      case 1: r = x; r += y; break;
      case 2: r = sdd::sum<C>({x, y, z}); break;
      default: { std::vector<D> v{z, y, x, y}; r = sdd::sum<C>(v.begin(), v.end()); }
    }
    SYM_ASSERT(member(r, p) == (entry < 2 ? (ix | iy) : (ix | iy | iz)), "union contains exactly the assignments of its operands");
    check_canonical(r);
    SYM_ASSERT(member(x, p) == ix, "operand unchanged by a union");
    __symx_observe(r.empty());
  } else if (op == 1) {
    D r;
    switch (entry) {
      case 0: r = x & y; break;
      case 1: r = x; r &= y; break;
      case 2: r = sdd::intersection<C>({x, y, z}); break;
      default: { std::vector<D> v{z, y, x, y}; r = sdd::intersection<C>(v.begin(), v.end()); }
    }
    SYM_ASSERT(member(r, p) == (entry < 2 ? (ix & iy) : (ix & iy & iz)), "intersection contains exactly the common assignments");
    check_canonical(r);
    SYM_ASSERT(member(x, p) == ix, "operand unchanged by an intersection");
    __symx_observe(r.empty());
    if (!r.empty()) SYM_REACH("nonempty");
  } else if (op == 2) {
    D r;
    if (entry == 0) r = x - y; else { r = x; r -= y; }
    SYM_ASSERT(member(r, p) == (ix & !iy), "difference contains exactly the assignments of the left operand only");
    check_canonical(r);
    SYM_ASSERT(member(x, p) == ix, "operand unchanged by a difference");
    __symx_observe(r.empty());
    if (!r.empty()) SYM_REACH("nonempty");
  } else {
    // canonicity: the same set built in different ways is the same handle; different handles hold different sets
    columns col(L);
    for (unsigned l = 0; l < L; ++l) {
      if (fs) { for (unsigned k = 0; k < nx + ny; ++k) for (unsigned j = 0; j < wide; ++j) col[l].push_back(a[k][l][j]); }
      else for (unsigned v = 0; v < 8; ++v) col[l].push_back(v);
    }
    std::vector<unsigned> pt(L);
    check_canonical(x); check_canonical(y);
    const bool eq = x == y;
    if (eq) SYM_REACH("equal"); else SYM_REACH("different");
    SYM_ASSERT(eq == same_on<C>(x, y, col, 0, pt), "two SDDs are the same handle exactly when they hold the same set");
    SYM_ASSERT(eq == ((x - y).empty() & (y - x).empty()), "handles equal exactly when both differences are empty");
    const unsigned how = entry;
    D w; // the same union as x, built another way, after other operations happened
    if (how == 0) w = build(0, nx, 1);
    else if (how == 1) w = build(0, nx, 2);
    else if (how == 2) w = ((x + y) - (y - x));
    else w = (x & y) + (x - y);
    SYM_ASSERT(w == x, "the same set built another way is the same handle");
  }
  SYM_REACH("end");
}
