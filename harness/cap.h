// Text written by the library, kept with its symbolic numbers: every integer that reaches a stream is written as a token #k and its
// (symbolic) value kept in a table.
// Included first: the extern declarations of the stream templates are switched off, so that they are part of the explored module.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <ostream>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#include <locale>
#include <string>
#include <sstream>
#include <vector>
#include "sym.h"
#include <vector>
inline std::vector<std::uint64_t>& NUMS() { static std::vector<std::uint64_t> v; return v; }
struct tokens : std::num_put<char> {
  using it = std::num_put<char>::iter_type;
  static it digits(it o, unsigned k) { char b[12]; int n = 0; do { b[n++] = char('0' + k % 10); k /= 10; } while (k); while (n) { *o = b[--n]; ++o; } return o; }
  static it num(it o, std::uint64_t v) { *o = '#'; ++o; NUMS().push_back(v); return digits(o, (unsigned)NUMS().size() - 1); }
  it do_put(it o, std::ios_base&, char, bool v) const override { return num(o, v); }
  it do_put(it o, std::ios_base&, char, long v) const override { return num(o, (std::uint64_t)v); }
  it do_put(it o, std::ios_base&, char, unsigned long v) const override { return num(o, v); }
  it do_put(it o, std::ios_base&, char, long long v) const override { return num(o, (std::uint64_t)v); }
  it do_put(it o, std::ios_base&, char, unsigned long long v) const override { return num(o, v); }
};
struct capbuf : std::streambuf {
  std::string s;
  int_type overflow(int_type c) override { if (c != traits_type::eof()) s.push_back((char)c); return 0; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { s.append(p, (std::size_t)n); return n; }
};
template <class T> std::string text(const T& x) { static const std::locale loc(std::locale::classic(), new tokens); capbuf b; std::ostream os(&b); os.imbue(loc); os << x; return b.s; }
