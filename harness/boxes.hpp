// index boxes of any rank: generation, enumeration, printing
#ifndef BOXES_HPP
#define BOXES_HPP
#include "pbt.hpp"
#include <grid/array.hpp>
#include <grid/range.hpp>

template <size_t R>
struct IBox {
  int lo[R], hi[R];
  bool empty() const {
    for (size_t d = 0; d < R; ++d)
      if (hi[d] < lo[d]) return true;
    return false;
  }
  size_t count() const {
    if (empty()) return 0;
    size_t n = 1;
    for (size_t d = 0; d < R; ++d) n *= (size_t)(hi[d] - lo[d] + 1);
    return n;
  }
  int len(size_t d) const { return hi[d] - lo[d] + 1; }
  bool has(const int *p) const {
    for (size_t d = 0; d < R; ++d)
      if (p[d] < lo[d] || p[d] > hi[d]) return false;
    return true;
  }
  /// the k-th point in row-major order
  schnek::Array<int, R> at(size_t k) const {
    schnek::Array<int, R> p;
    for (size_t q = R; q-- > 0;) {
      p[q] = lo[q] + (int)(k % (size_t)len(q));
      k /= (size_t)len(q);
    }
    return p;
  }
  template <class P>
  size_t rank_of(const P &p) const {
    size_t k = 0;
    for (size_t d = 0; d < R; ++d) k = k * (size_t)len(d) + (size_t)(p[d] - lo[d]);
    return k;
  }
  template <class P>
  size_t rank_of_fortran(const P &p) const {
    size_t k = 0;
    for (size_t d = R; d-- > 0;) k = k * (size_t)len(d) + (size_t)(p[d] - lo[d]);
    return k;
  }
  schnek::Array<int, R> Lo() const {
    schnek::Array<int, R> a;
    for (size_t d = 0; d < R; ++d) a[d] = lo[d];
    return a;
  }
  schnek::Array<int, R> Hi() const {
    schnek::Array<int, R> a;
    for (size_t d = 0; d < R; ++d) a[d] = hi[d];
    return a;
  }
  schnek::Range<int, R> range() const { return schnek::Range<int, R>(Lo(), Hi()); }
  bool operator==(const IBox &o) const {
    for (size_t d = 0; d < R; ++d)
      if (lo[d] != o.lo[d] || hi[d] != o.hi[d]) return false;
    return true;
  }
  template <class P>
  static std::string str(const P &p) {
    std::ostringstream o;
    o << "(";
    for (size_t d = 0; d < R; ++d) o << (d ? "," : "") << p[d];
    o << ")";
    return o.str();
  }
  std::string show() const {
    std::ostringstream o;
    for (size_t d = 0; d < R; ++d) o << (d ? "x" : "") << "[" << lo[d] << ".." << hi[d] << "]";
    return o.str();
  }
};

/// a non-empty box with a bounded number of points, any offsets
template <size_t R>
IBox<R> genIBox(pbt::Src &s, int64_t maxLen = 6, int64_t off = 12) {
  IBox<R> b;
  size_t n = 1;
  bool big = maxLen >= 4 && s.chance(1, 100);  // many cells, or one very long dimension
  for (size_t d = 0; d < R; ++d) {
    int64_t lo = s.near0(-off, off);
    if (s.chance(1, 12)) lo = s.near0(-100000, 100000);
    else if (s.chance(1, 40)) lo = s.chance(1, 2) ? s.range(0, 1000000) - 2000000000 : 2000000000 - s.range(0, 1000000);
    int64_t cap = n > 200 ? 1 : n > 40 ? 2 : n > 6 ? std::min<int64_t>(4, maxLen) : (s.chance(1, 8) ? 3 * maxLen : maxLen);
    if (big) cap = n > 3000 ? 2 : s.chance(1, 3) ? 9000 / (int64_t)n : 20;
    int64_t len = 1 + s.range(0, cap - 1);
    b.lo[d] = (int)lo;
    b.hi[d] = (int)(lo + len - 1);
    n *= len;
  }
  return b;
}
#endif
