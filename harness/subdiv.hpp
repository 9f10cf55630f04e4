// a model of a periodic global grid, used to check the serial and the MPI subdivision
#ifndef SUBDIV_HPP
#define SUBDIV_HPP
#include "boxes.hpp"
#include <grid/grid.hpp>
#include <grid/field.hpp>
#include <grid/domainsubdivision.hpp>
#include <map>
#include <type_traits>

template <size_t R, class D>
IBox<R> boxOf(const D &d) {
  IBox<R> b;
  for (size_t i = 0; i < R; ++i) b.lo[i] = d.getLo()[i], b.hi[i] = d.getHi()[i];
  return b;
}

/// the cell of the global domain that p is a periodic image of
template <size_t R, class P>
schnek::Array<int, R> wrap(const P &p, const IBox<R> &global) {
  schnek::Array<int, R> q;
  for (size_t d = 0; d < R; ++d) {
    int n = global.len(d), k = (p[d] - global.lo[d]) % n;
    q[d] = global.lo[d] + (k < 0 ? k + n : k);
  }
  return q;
}

/// p is outside the inner box in dimension d
template <size_t R, class P>
bool ghostIn(const P &p, const IBox<R> &inner, size_t d) {
  return p[d] < inner.lo[d] || p[d] > inner.hi[d];
}

/// value of global cell number k
template <class T>
T cellValue(size_t k, uint64_t salt) {
  uint64_t x = (k + 1) * 2654435761ull ^ (salt * 0x9E3779B97F4A7C15ull);
  x ^= x >> 29;
  // as many significant bits as sums of a few dozen of them stay exact in
  const int bits = sizeof(T) == 1 ? 2 : sizeof(T) == 2 ? 9 : std::is_same<T, float>::value ? 17 : sizeof(T) == 4 ? 25 : 45;
  T v = (T)(x % (1ull << bits));
  if (salt % 8 == 3 && (x >> 13) % 3) v = 0;                      // mostly zeros
  if (salt % 8 == 5 && std::is_signed<T>::value && (x >> 17) % 2) v = (T)-v;
  return std::is_floating_point<T>::value && sizeof(T) > 4 ? v / 16 : v;
}
template <class T>
T ghostValue(size_t k, uint64_t salt, int rank) {
  return (T)(cellValue<T>(k * 31 + rank * 7 + 3, salt) + (salt % 8 != 3 || (k + rank) % 2));
}

/// grids may be larger than the domain: the cells around it belong to nobody
template <size_t R, class G>
void markAround(G &g, const IBox<R> &all) {
  typedef typename G::value_type T;
  IBox<R> mem;
  for (size_t d = 0; d < R; ++d) mem.lo[d] = g.getLo()[d], mem.hi[d] = g.getHi()[d];
  for (size_t k = 0; k < mem.count(); ++k) {
    schnek::Array<int, R> p = mem.at(k);
    if (!all.has(&p[0])) g[p] = (T)(17 + k % 50);
  }
}
template <size_t R, class G>
void checkAround(G &g, const IBox<R> &all) {
  typedef typename G::value_type T;
  IBox<R> mem;
  for (size_t d = 0; d < R; ++d) mem.lo[d] = g.getLo()[d], mem.hi[d] = g.getHi()[d];
  for (size_t k = 0; k < mem.count(); ++k) {
    schnek::Array<int, R> p = mem.at(k);
    if (!all.has(&p[0])) CHECK(g[p] == (T)(17 + k % 50), "cell " << IBox<R>::str(p) << " outside of the domain " << all.show() << " changed");
  }
}
template <size_t R>
IBox<R> padded(pbt::Src &s, IBox<R> b) {
  if (s.chance(1, 6))
    for (size_t d = 0; d < R; ++d) b.lo[d] -= (int)s.small(2), b.hi[d] += (int)s.small(2);
  return b;
}
#endif
