// P02: ranges and the iteration policies visit every index of a box exactly once, in the promised order.
#include "pbt.hpp"
#include <iterator>
#include <grid/range.hpp>
#include <grid/iteration/range-iteration.hpp>
#include <grid/iteration/kokkos-iteration.hpp>
#include <atomic>

using namespace schnek;
using pbt::Src;

template <class T, size_t R>
struct Box {
  T lo[R], hi[R];
  bool empty() const {
    for (size_t d = 0; d < R; ++d)
      if (hi[d] < lo[d]) return true;
    return false;
  }
  size_t count() const {
    if (empty()) return 0;
    size_t n = 1;
    for (size_t d = 0; d < R; ++d) n *= (size_t)(hi[d] - lo[d] + 1);
    return n;
  }
  std::string show() const {
    std::ostringstream o;
    for (size_t d = 0; d < R; ++d) o << (d ? "x" : "") << "[" << (long)lo[d] << ".." << (long)hi[d] << "]";
    return o.str();
  }
};

template <class T, size_t R>
Box<T, R> genBox(Src &s) {
  Box<T, R> b;
  size_t n = 1;
  bool emp = s.chance(1, 12), big = s.chance(1, 80);
  for (size_t d = 0; d < R; ++d) {
    int64_t lo = s.near0(-12, 12);
    if (s.chance(1, 10)) lo = s.near0(-1000000, 1000000);
    // narrow index types stay clear of their largest value (no index behind the last point could
    // be represented); wide ones also reach positions that do not fit into 32 bits
    if (sizeof(T) < 4) lo %= 12000;
    if (sizeof(T) > 4 && s.chance(1, 12)) lo += s.range(0, 1) ? (int64_t)1 << s.range(31, 50) : -((int64_t)1 << s.range(31, 50));
    if (!std::is_signed<T>::value && lo < 0) lo = -lo;
    int64_t cap = n > 200 ? 1 : n > 40 ? 2 : n > 6 ? 4 : (s.chance(1, 8) ? 24 : 6);
    if (big) cap = n > 20000 / 3 ? 2 : s.chance(1, 3) ? 20000 / (int64_t)n : 30;
    int64_t len = 1 + s.range(0, cap);
    if (emp && s.chance(1, 2) && (lo > 3 || std::is_signed<T>::value)) {
      len = s.chance(1, 4) && std::is_signed<T>::value ? -s.range(0, 60) : -s.range(0, 2);
    }
    b.lo[d] = (T)lo;
    b.hi[d] = (T)(lo + len - 1);
    if (len > 0) n *= len;
  }
  return b;
}

// reference enumeration: the k-th point of the box
template <class T, size_t R>
void point(const Box<T, R> &b, size_t k, bool fortran, T *p) {
  for (size_t q = 0; q < R; ++q) {
    size_t d = fortran ? q : R - 1 - q;
    size_t len = (size_t)(b.hi[d] - b.lo[d] + 1);
    p[d] = (T)(b.lo[d] + (T)(k % len));
    k /= len;
  }
}

template <class P, class T, size_t R>
void expectPoint(const P &p, const Box<T, R> &b, size_t k, bool fortran, const char *what) {
  CHECK(k < b.count(), what << " visits more than the " << b.count() << " points of the range");
  T q[R];
  point(b, k, fortran, q);
  for (size_t d = 0; d < R; ++d)
    CHECK(p[d] == q[d], what << ": visit " << k << " has coordinate " << d << " = " << (long)p[d] << " instead of " << (long)q[d]);
}

template <class T, size_t R, template <size_t> class Chk>
void ranges(Src &s) {
  typedef Range<T, R, Chk> Rg;
  typedef typename Rg::LimitType Lim;
  Box<T, R> b = genBox<T, R>(s);
  NOTE(s) << "range " << b.show() << "\n";
  s.label("rank " + std::to_string(R) + (b.empty() ? " empty" : ""));
  Lim lo, hi;
  for (size_t d = 0; d < R; ++d) {
    lo[d] = b.lo[d];
    hi[d] = b.hi[d];
  }
  Rg r(lo, hi);
  if (b.count() > 1) s.nontrivial();
  const Rg cr(r);
  for (size_t d = 0; d < R; ++d)
    CHECK(r.getLo()[d] == lo[d] && r.getHi(d) == hi[d] && cr.getLo(d) == lo[d] && cr.getHi()[d] == hi[d], "corners, dimension " << d);

  // the forward iterator: prefix or postfix increments, and comparisons between iterators
  {
    size_t k = 0;
    bool post = s.chance(1, 2);
    for (auto it = r.begin(); it != r.end();) {
      expectPoint(*it, b, k, false, "range iterator");
      expectPoint(it.getPos(), b, k, false, "range iterator position");
      CHECK(!(it == r.end()), "iterator is both equal and unequal to end");
      auto old = it;
      CHECK(old == it, "a copied iterator equals its original");
      if (post) {
        auto prev = it++;
        CHECK(prev == old, "postfix increment returns the old iterator");
      } else {
        auto &ref = ++it;
        CHECK(&ref == &it, "prefix increment returns itself");
      }
      CHECK(old != it, "an incremented iterator differs");
      ++k;
    }
    CHECK(k == b.count(), "range iterator visited " << k << " of " << b.count() << " points");
    k = 0;
    for (auto p : r) expectPoint(p, b, k++, false, "range-for");
    CHECK(k == b.count(), "range-for visited " << k << " of " << b.count() << " points");
  }
  // iteration policies
  {
    size_t k = 0;
    RangeCIterationPolicy<R>::forEach(cr, [&](const Lim &p) { expectPoint(p, b, k++, false, "C-order forEach"); });
    CHECK(k == b.count(), "C-order forEach visited " << k << " of " << b.count() << " points");
    k = 0;
    RangeFortranIterationPolicy<R>::forEach(cr, [&](const Lim &p) { expectPoint(p, b, k++, true, "Fortran-order forEach"); });
    CHECK(k == b.count(), "Fortran-order forEach visited " << k << " of " << b.count() << " points");
  }
  for (size_t d = 0; d < R; ++d) CHECK(cr.getLo(d) == lo[d] && cr.getHi(d) == hi[d], "iteration changed the range");
  // inside
  for (int q = 0; q < 6; ++q) {
    Lim p;
    bool in = true;
    for (size_t d = 0; d < R; ++d) {
      int64_t v;
      switch (s.draw(6)) {
        case 0: v = b.lo[d]; break;
        case 1: v = b.hi[d]; break;
        case 2: v = (int64_t)b.lo[d] - 1; break;
        case 3: v = (int64_t)b.hi[d] + 1; break;
        default: v = (int64_t)b.lo[d] + s.near0(0, 6); break;
      }
      if (!std::is_signed<T>::value && v < 0) v = 0;
      p[d] = (T)v;
      in = in && p[d] >= b.lo[d] && p[d] <= b.hi[d];
    }
    s.label(in ? "inside" : "outside");
    CHECK(r.inside(p) == in, "inside() is " << r.inside(p) << " for a point that " << (in ? "is" : "is not") << " in the box");
  }
  // copies of all kinds, and projections
  Rg as;
  for (size_t d = 0; d < R; ++d) CHECK(as.getLo(d) == 0 && as.getHi(d) == 0, "default range");
  as = r;
  Range<T, R> other(r);
  Range<T, R, ArrayAssertArgCheck> other2(other);
  for (size_t d = 0; d < R; ++d)
    CHECK(as.getLo(d) == lo[d] && as.getHi(d) == hi[d] && other.getLo(d) == lo[d] && other.getHi(d) == hi[d] && other2.getLo(d) == lo[d] && other2.getHi(d) == hi[d], "copied corner " << d);
  if constexpr (R > 1) {
    auto p = r.template project<(int)R - 1>();
    for (size_t d = 0; d + 1 < R; ++d) CHECK(p.getLo(d) == lo[d] && p.getHi(d) == hi[d], "project, dimension " << d);
    size_t dim = s.draw(R);
    auto q = r.projectDim((int)dim);
    for (size_t d = 0, e = 0; d < R; ++d)
      if (d != dim) {
        CHECK(q.getLo(e) == lo[d] && q.getHi(e) == hi[d], "projectDim(" << dim << "), dimension " << e);
        ++e;
      }
  }
  // setting corners through the non-const accessors affects this range only
  size_t d0 = s.draw(R);
  as.getLo(d0) = lo[d0] + 1;
  as.getHi()[d0] = hi[d0] + 2;
  for (size_t d = 0; d < R; ++d) {
    CHECK(r.getLo(d) == lo[d] && r.getHi(d) == hi[d], "changing a copy changed the original");
    CHECK(as.getLo(d) == lo[d] + (d == d0 ? 1 : 0) && as.getHi(d) == hi[d] + (d == d0 ? 2 : 0), "setting corner " << d);
  }
  // uniform growth, then iterate again
  T g = (T)s.range(0, 2);
  bool can = true;
  if (!std::is_signed<T>::value)
    for (size_t d = 0; d < R; ++d) can = can && lo[d] >= g;
  if (can && b.count() < 100) {
    r.grow(g);
    Box<T, R> b2 = b;
    for (size_t d = 0; d < R; ++d) {
      b2.lo[d] = b.lo[d] - g;
      b2.hi[d] = b.hi[d] + g;
      CHECK(r.getLo(d) == b2.lo[d] && r.getHi(d) == b2.hi[d], "grow(" << (long)g << "), dimension " << d);
    }
    if (b2.count() < 1000) {
      size_t k = 0;
      for (auto it = r.begin(); it != r.end(); ++it) expectPoint(*it, b2, k++, false, "grown range");
      CHECK(k == b2.count(), "grown range visited " << k);
    }
  }
}

PROPERTY(range_iterate) {
  bool chk = s.chance(1, 3);
  switch (s.draw(9)) {
    case 0: chk ? ranges<int, 1, ArrayAssertArgCheck>(s) : ranges<int, 1, ArrayNoArgCheck>(s); break;
    case 1: chk ? ranges<int, 2, ArrayAssertArgCheck>(s) : ranges<int, 2, ArrayNoArgCheck>(s); break;
    case 2: chk ? ranges<int, 3, ArrayAssertArgCheck>(s) : ranges<int, 3, ArrayNoArgCheck>(s); break;
    case 3: ranges<int, 4, ArrayNoArgCheck>(s); break;
    case 4: ranges<int, 5, ArrayNoArgCheck>(s); break;
    case 5: ranges<long, 2, ArrayNoArgCheck>(s); break;
    case 6: ranges<size_t, 3, ArrayNoArgCheck>(s); break;
    case 7: ranges<int, 6, ArrayNoArgCheck>(s); break;
    case 8: ranges<short, 2, ArrayAssertArgCheck>(s); break;
  }
}

template <size_t R, size_t... I>
void growAll(Src &s, std::index_sequence<I...>) {
  int lo[R], hi[R], g[R];
  Array<int, R> L, H;
  NOTE(s) << "rank " << R << " growth";
  for (size_t d = 0; d < R; ++d) {
    L[d] = lo[d] = (int)s.near0(-20, 20);
    H[d] = hi[d] = lo[d] + (int)s.range(0, 9);
    g[d] = (int)s.near0(-3, 5);
    NOTE(s) << " " << g[d];
  }
  NOTE(s) << "\n";
  Range<int, R> r(L, H);
  r.grow(g[I]...);
  for (size_t d = 0; d < R; ++d)
    CHECK(r.getLo(d) == lo[d] - g[d] && r.getHi(d) == hi[d] + g[d], "grow per dimension, dimension " << d << " of " << R);
  // growth taken from the range itself
  size_t own = (size_t)s.range(0, R - 1);
  bool low = s.chance(1, 2);
  Range<int, R> ro(L, H);
  int by = low ? lo[own] : hi[own];
  if (low) ro.grow(ro.getLo(own));
  else ro.grow(ro.getHi(own));
  for (size_t d = 0; d < R; ++d)
    CHECK(ro.getLo(d) == lo[d] - by && ro.getHi(d) == hi[d] + by, "grow by the " << (low ? "lower" : "upper") << " limit " << own << " of the range itself, dimension " << d << " of " << R);
  Range<int, R> rp(L, H);
  rp.grow(rp.getLo(I)...);
  for (size_t d = 0; d < R; ++d)
    CHECK(rp.getLo(d) == 0 && rp.getHi(d) == hi[d] + lo[d], "grow by the lower limits of the range itself, dimension " << d << " of " << R);
  Range<double, R> rd;
  for (size_t d = 0; d < R; ++d) {
    rd.getLo(d) = lo[d];
    rd.getHi(d) = hi[d];
  }
  rd.grow((g[I] * 0.5)...);
  for (size_t d = 0; d < R; ++d)
    CHECK(rd.getLo(d) == lo[d] - g[d] * 0.5 && rd.getHi(d) == hi[d] + g[d] * 0.5, "grow of a floating range, dimension " << d << " of " << R);
  Array<double, R> p;
  bool in = true;
  for (size_t d = 0; d < R; ++d) {
    p[d] = rd.getLo(d) + (rd.getHi(d) - rd.getLo(d)) * (s.range(0, 12) - 1) / 10.0;
    in = in && p[d] >= rd.getLo(d) && p[d] <= rd.getHi(d);
  }
  CHECK(rd.inside(p) == in, "inside() of a floating range");
  s.nontrivial();
}

PROPERTY(range_grow) {
  switch (s.draw(9)) {
    case 0: growAll<2>(s, std::make_index_sequence<2>()); break;
    case 1: growAll<3>(s, std::make_index_sequence<3>()); break;
    case 2: growAll<4>(s, std::make_index_sequence<4>()); break;
    case 3: growAll<5>(s, std::make_index_sequence<5>()); break;
    case 4: growAll<6>(s, std::make_index_sequence<6>()); break;
    case 5: growAll<7>(s, std::make_index_sequence<7>()); break;
    case 6: growAll<8>(s, std::make_index_sequence<8>()); break;
    case 7: growAll<9>(s, std::make_index_sequence<9>()); break;
    case 8: growAll<10>(s, std::make_index_sequence<10>()); break;
  }
}

// parallel dispatch: any order, every point exactly once
template <class T, size_t R, class Space>
void kokkosIter(Src &s) {
  static bool up = false;
  if (!up) {
    Kokkos::initialize();
    up = true;
  }
  Box<T, R> b = genBox<T, R>(s);
  NOTE(s) << "parallel range " << b.show() << "\n";
  s.label("kokkos rank " + std::to_string(R) + (b.empty() ? " empty" : ""));
  Array<T, R> lo, hi;
  for (size_t d = 0; d < R; ++d) {
    lo[d] = b.lo[d];
    hi[d] = b.hi[d];
  }
  if (b.empty()) s.nontrivial();
  Range<T, R> r(lo, hi);
  size_t n = b.count();
  if (n > 1) s.nontrivial();
  std::vector<std::atomic<int>> seen(n);
  std::atomic<int> outside(0);
  std::atomic<int> *sp = seen.data();
  std::atomic<int> *op = &outside;
  RangeKokkosIterationPolicy<R, Space>::forEach(r, [=](const Array<T, R> &p) {
    size_t k = 0;
    for (size_t d = 0; d < R; ++d) {
      if (p[d] < b.lo[d] || p[d] > b.hi[d]) {
        ++*op;
        return;
      }
      k = k * (size_t)(b.hi[d] - b.lo[d] + 1) + (size_t)(p[d] - b.lo[d]);
    }
    ++sp[k];
  });
  Kokkos::fence();
  CHECK(outside == 0, "parallel forEach called with " << outside << " indices outside the range");
  for (size_t k = 0; k < n; ++k) CHECK(seen[k] == 1, "parallel forEach visited point number " << k << " " << seen[k] << " times");
}

PROPERTY(range_kokkos) {
  bool serial = s.chance(1, 2);
  typedef Kokkos::DefaultExecutionSpace D;
#ifdef KOKKOS_ENABLE_SERIAL
  typedef Kokkos::Serial S;
#else
  typedef D S;
#endif
  switch (s.draw(5)) {
    case 0: serial ? kokkosIter<int, 1, S>(s) : kokkosIter<int, 1, D>(s); break;
    case 1: serial ? kokkosIter<int, 2, S>(s) : kokkosIter<int, 2, D>(s); break;
    case 2: serial ? kokkosIter<int, 3, S>(s) : kokkosIter<int, 3, D>(s); break;
    case 3: serial ? kokkosIter<int, 4, S>(s) : kokkosIter<int, 4, D>(s); break;
    case 4: serial ? kokkosIter<long, 2, S>(s) : kokkosIter<long, 2, D>(s); break;
  }
}
