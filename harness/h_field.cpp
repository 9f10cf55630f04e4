// P06 index checking policies, P07 sub grids and transformed grids, P08 field geometry, P09 ghost regions
#include "boxes.hpp"
#include <cmath>
#include <sys/wait.h>
#include <unistd.h>
#include <grid/grid.hpp>
#include <grid/field.hpp>
#include <grid/boundary.hpp>
#include <grid/subgrid.hpp>
#include <grid/gridtransform.hpp>

using namespace schnek;
using pbt::Src;

// ---------------------------------------------------------------- P06

/// runs fn in a child process. 0: returned normally, 1: fn failed a check (msg), 2: stopped (signal or exit)
template <class F>
int inChild(F fn, std::string &msg) {
  int fd[2];
  if (pipe(fd) != 0) throw pbt::Discard();
  pid_t p = fork();
  if (p < 0) throw pbt::Discard();
  if (p == 0) {
    close(fd[0]);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 2);
    try {
      fn();
    } catch (pbt::Fail &f) {
      (void)!write(fd[1], f.msg.data(), f.msg.size());
      _exit(43);
    } catch (...) {
      _exit(44);
    }
    _exit(42);
  }
  close(fd[1]);
  char buf[4096];
  msg.clear();
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) msg.append(buf, n);
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 43) return 1;
  return 2;
}

template <class G, size_t R, size_t... I>
decltype(auto) call(G &g, const Array<int, R> &p, std::index_sequence<I...>) {
  return g(p[I]...);
}

/// reads a cell in one of several ways
template <size_t R, class G>
typename G::value_type getForm(G &g, const Array<int, R> &p, int form) {
  const G &c = g;
  Array<int, R, ArrayAssertArgCheck> pa(p);
  switch (form) {
    case 0: return g[p];
    case 1: return c[p];
    case 2: return call(g, p, std::make_index_sequence<R>());
    case 3: return call(c, p, std::make_index_sequence<R>());
    case 4: return g[pa];
    default: return c[p + 0];
  }
}
template <size_t R, class G>
void setForm(G &g, const Array<int, R> &p, int form, typename G::value_type v) {
  Array<int, R, ArrayAssertArgCheck> pa(p);
  switch (form % 4) {
    case 0: g[p] = v; break;
    case 1: call(g, p, std::make_index_sequence<R>()) = v; break;
    case 2: g[pa] = v; break;
    default: g[p + 0] = v; break;
  }
}

/// a position within the box, or just/far outside in a chosen number of dimensions
template <size_t R>
Array<int, R> genPos(Src &s, const IBox<R> &b, bool outside) {
  Array<int, R> p;
  for (size_t d = 0; d < R; ++d) p[d] = b.lo[d] + (int)s.range(0, b.len(d) - 1);
  if (outside) {
    size_t n = 1 + s.small(R - 1);
    for (size_t i = 0; i < n; ++i) {
      size_t d = s.range(0, R - 1);
      int far = s.chance(1, 4) ? (int)s.range(1, 100000) : (int)s.range(1, 3);
      p[d] = s.chance(1, 2) ? b.hi[d] + far : b.lo[d] - far;
    }
  }
  return p;
}

template <size_t R, template <class, size_t> class St>
void assertCase(Src &s) {
  typedef Grid<long, R, GridAssertCheck, St> G;
  IBox<R> b = genIBox<R>(s);
  G g(b.Lo(), b.Hi());
  for (size_t k = 0; k < b.count(); ++k) g.StoragePolicyType::get(b.at(k)) = (long)k;
  bool outside = s.chance(1, 2), write = s.chance(1, 2);
  Array<int, R> p = genPos<R>(s, b, outside);
  int form = (int)s.range(0, 5);
  NOTE(s) << "assert policy rank " << R << " box " << b.show() << (write ? " write " : " read ") << IBox<R>::str(p)
          << " form " << form << (outside ? " outside" : " inside");
  s.label(outside ? "outside" : "inside");
  std::string msg;
  int r = inChild(
      [&] {
        if (write) {
          setForm<R>(g, p, form, 77);
          if (!outside) CHECK(g.StoragePolicyType::get(p) == 77, "write to a valid cell is lost");
        } else {
          long v = getForm<R>(g, p, form);
          if (!outside) CHECK(v == (long)b.rank_of(p), "wrong value read: " << v);
        }
      },
      msg);
  CHECK(r != 1, msg);
  if (outside) CHECK(r == 2, "an access outside the grid was not stopped");
  else CHECK(r == 0, "an access inside the grid was stopped");
  s.nontrivial();
}

template <size_t R, template <class, size_t> class St>
void debugCase(Src &s) {
  typedef Grid<long, R, GridDebugCheck, St> G;
  IBox<R> b = genIBox<R>(s);
  G g(b.Lo(), b.Hi());
  std::vector<long> model(b.count());
  for (size_t k = 0; k < b.count(); ++k) g.StoragePolicyType::get(b.at(k)) = model[k] = 1000 + (long)k;
  struct Acc {
    bool outside, write;
    Array<int, R> p;
    int form;
  };
  std::vector<Acc> acc(1 + s.small(8));
  NOTE(s) << "debug policy rank " << R << " box " << b.show();
  for (auto &a : acc) {
    a.outside = s.chance(1, 3);
    a.write = s.chance(1, 2);
    a.p = genPos<R>(s, b, a.outside);
    a.form = (int)s.range(0, 5);
    NOTE(s) << (a.write ? " w" : " r") << IBox<R>::str(a.p) << "/" << a.form;
    if (a.outside) s.nontrivial();
  }
  std::string msg;
  int r = inChild(
      [&] {
        bool bad = G::getErrorFlag();
        CHECK(!bad, "error flag set before any access");
        for (auto &a : acc) {
          Array<int, R> c(a.p);
          int lastDim = -1, sign = 0;
          for (size_t d = 0; d < R; ++d) {
            if (c[d] < b.lo[d]) c[d] = b.lo[d], lastDim = (int)d, sign = -1;
            else if (c[d] > b.hi[d]) c[d] = b.hi[d], lastDim = (int)d, sign = 1;
          }
          if (a.write) {
            setForm<R>(g, a.p, a.form, 5 + (long)(&a - &acc[0]));
            model[b.rank_of(c)] = 5 + (long)(&a - &acc[0]);
          } else {
            long v = getForm<R>(g, a.p, a.form);
            CHECK(v == model[b.rank_of(c)], "read at " << IBox<R>::str(a.p) << " gives " << v << ", nearest cell "
                                                       << IBox<R>::str(c) << " holds " << model[b.rank_of(c)]);
          }
          if (lastDim >= 0) {
            bad = true;
            CHECK(G::getErrorInfo() == sign * lastDim, "error info " << G::getErrorInfo() << " for dimension " << lastDim);
            auto o = G::getOffending();
            for (size_t d = 0; d < R; ++d) CHECK(o[d] == a.p[d], "offending position " << IBox<R>::str(o));
          }
          CHECK(G::getErrorFlag() == bad, "error flag is " << G::getErrorFlag() << " after access to " << IBox<R>::str(a.p));
        }
        for (size_t k = 0; k < model.size(); ++k)
          CHECK(g.StoragePolicyType::get(b.at(k)) == model[k], "cell " << IBox<R>::str(b.at(k)) << " changed");
      },
      msg);
  CHECK(r != 1, msg);
  CHECK(r == 0, "a clamped access stopped the program");
}

template <size_t N>
void arrayAssertCase(Src &s) {
  Array<int, N, ArrayAssertArgCheck> a;
  for (size_t i = 0; i < N; ++i) a[i] = 10 + (int)i;
  const Array<int, N, ArrayAssertArgCheck> &c = a;
  bool outside = s.chance(1, 2);
  size_t i = outside ? N + s.small(1000) : s.range(0, N - 1);
  if (outside && s.chance(1, 3)) i = (size_t)-1 - s.small(100);
  bool isConst = s.chance(1, 2);
  NOTE(s) << "array length " << N << " index " << i;
  std::string msg;
  volatile int v = 0;
  int r = inChild(
      [&] {
        v = isConst ? c[i] : a[i];
        CHECK(v == 10 + (int)i, "wrong element " << v);
      },
      msg);
  if (outside) CHECK(r == 2, "index " << i << " of " << N << " was not stopped");
  else CHECK(r == 0, "valid index " << i << " of " << N << " was stopped: " << msg);
  s.nontrivial();
}

/// a sub grid of a checked grid, or a checked sub grid: access outside the sub grid is stopped
template <size_t R>
void subAssertCase(Src &s) {
  IBox<R> b = genIBox<R>(s), sub;
  for (size_t d = 0; d < R; ++d) {
    sub.lo[d] = b.lo[d] + (int)s.range(0, b.len(d) - 1);
    sub.hi[d] = sub.lo[d] + (int)s.range(0, b.hi[d] - sub.lo[d]);
  }
  int mode = (int)s.range(0, 2);
  bool outside = s.chance(1, 2);
  Array<int, R> p = genPos<R>(s, sub, outside);
  int form = (int)s.range(0, 5);
  bool read = s.chance(1, 2);
  auto use = [&](auto &v) {
    if (!read) return setForm<R>(v, p, form, 3);
    volatile long x = getForm<R>(v, p, form);
    (void)x;
  };
  std::string msg;
  int r;
  NOTE(s) << (read ? "read " : "write ") << "sub grid " << sub.show() << " of " << b.show() << " mode " << mode << " pos " << IBox<R>::str(p) << " form " << form;
  if (mode == 0) {
    typedef Grid<long, R, GridAssertCheck> G;
    G g(b.Lo(), b.Hi());
    r = inChild([&] { SubGrid<G> v(sub.Lo(), sub.Hi(), g); use(v); }, msg);
  } else if (mode == 1) {
    typedef Grid<long, R> G;
    G g(b.Lo(), b.Hi());
    r = inChild([&] { SubGrid<G, GridAssertCheck> v(sub.Lo(), sub.Hi(), g); use(v); }, msg);
  } else {
    // a region that does not fit in the grid is refused
    typedef Grid<long, R> G;
    G g(b.Lo(), b.Hi());
    IBox<R> w = sub;
    if (outside) {
      size_t d = s.range(0, R - 1);
      if (s.chance(1, 2)) w.lo[d] = b.lo[d] - 1 - (int)s.small(3);
      else w.hi[d] = b.hi[d] + 1 + (int)s.small(3);
    }
    bool byRange = s.chance(1, 2);
    if (s.chance(1, 3)) {
      // by size: the region starts at 0
      Array<int, R> size;
      outside = false;
      NOTE(s) << " by size";
      for (size_t d = 0; d < R; ++d) {
        size[d] = 1 + (int)s.small(6);
        if (b.lo[d] <= 0 && b.hi[d] >= 0 && s.chance(4, 5)) size[d] = 1 + (int)s.range(0, b.hi[d]);
        if (b.lo[d] > 0 || b.hi[d] < size[d] - 1) outside = true;
        NOTE(s) << " " << size[d];
      }
      r = inChild([&] { SubGrid<G, GridAssertCheck> v(size, g); }, msg);
    } else
    r = inChild([&] {
      if (byRange) SubGrid<G, GridAssertCheck> v(w.range(), g);
      else SubGrid<G, GridAssertCheck> v(w.Lo(), w.Hi(), g);
    }, msg);
  }
  if (outside) CHECK(r == 2, "use outside the sub grid was not stopped");
  else CHECK(r == 0, "valid use of the sub grid was stopped");
  s.nontrivial();
}

PROPERTY(check_assert) {
  switch (s.range(0, 11)) {
    case 0: return assertCase<1, SingleArrayGridStorage>(s);
    case 1: return assertCase<2, SingleArrayGridStorage>(s);
    case 2: return assertCase<3, SingleArrayGridStorage>(s);
    case 3: return assertCase<2, SingleArrayGridStorageFortran>(s);
    case 4: return assertCase<3, LazyArrayGridStorage>(s);
    case 5: return assertCase<4, SingleArrayGridStorage>(s);
    case 6: return assertCase<5, SingleArrayGridStorageFortran>(s);
    case 7: return assertCase<6, SingleArrayGridStorage>(s);
    case 8: return assertCase<7, SingleArrayGridStorage>(s);
    case 9: return assertCase<8, SingleArrayGridStorageFortran>(s);
    case 10: return assertCase<9, SingleArrayGridStorage>(s);
    default: return assertCase<10, SingleArrayGridStorage>(s);
  }
}
PROPERTY(check_debug) {
  switch (s.range(0, 11)) {
    case 0: return debugCase<1, SingleArrayGridStorage>(s);
    case 1: return debugCase<2, SingleArrayGridStorage>(s);
    case 2: return debugCase<3, SingleArrayGridStorage>(s);
    case 3: return debugCase<2, SingleArrayGridStorageFortran>(s);
    case 4: return debugCase<3, LazyArrayGridStorage>(s);
    case 5: return debugCase<4, SingleArrayGridStorage>(s);
    case 6: return debugCase<5, SingleArrayGridStorage>(s);
    case 7: return debugCase<6, SingleArrayGridStorageFortran>(s);
    case 8: return debugCase<7, SingleArrayGridStorage>(s);
    case 9: return debugCase<8, SingleArrayGridStorage>(s);
    case 10: return debugCase<9, SingleArrayGridStorage>(s);
    default: return debugCase<10, SingleArrayGridStorage>(s);
  }
}
PROPERTY(check_array) {
  switch (s.range(0, 3)) {
    case 0: return arrayAssertCase<1>(s);
    case 1: return arrayAssertCase<2>(s);
    case 2: return arrayAssertCase<3>(s);
    default: return arrayAssertCase<7>(s);
  }
}
PROPERTY(check_subgrid) {
  switch (s.range(0, 2)) {
    case 0: return subAssertCase<1>(s);
    case 1: return subAssertCase<2>(s);
    default: return subAssertCase<3>(s);
  }
}

// ---------------------------------------------------------------- P07

template <size_t R>
IBox<R> genSub(Src &s, const IBox<R> &b) {
  IBox<R> sub;
  for (size_t d = 0; d < R; ++d) {
    sub.lo[d] = b.lo[d] + (int)s.range(0, b.len(d) - 1);
    sub.hi[d] = sub.lo[d] + (int)s.range(0, b.hi[d] - sub.lo[d]);
  }
  return sub;
}

template <size_t R, class V>
void checkExtent(V &v, const IBox<R> &sub) {
  for (size_t d = 0; d < R; ++d) {
    CHECK(v.getLo()[d] == sub.lo[d] && v.getLo((int)d) == sub.lo[d], "lower limit in dimension " << d);
    CHECK(v.getHi()[d] == sub.hi[d] && v.getHi((int)d) == sub.hi[d], "upper limit in dimension " << d);
    CHECK(v.getDims()[d] == sub.len(d) && v.getDims((int)d) == sub.len(d), "size in dimension " << d);
  }
}

template <size_t R, class T, template <class, size_t> class St>
void subCase(Src &s) {
  typedef Grid<T, R, GridNoArgCheck, St> G;
  IBox<R> b = genIBox<R>(s);
  IBox<R> sub = genSub<R>(s, b);
  int how = (int)s.range(0, 5);
  NOTE(s) << "rank " << R << " grid " << b.show() << " sub " << sub.show() << " built " << how;
  G g(b.Lo(), b.Hi());
  std::vector<T> model(b.count());
  for (size_t k = 0; k < b.count(); ++k) g.get(b.at(k)) = model[k] = (T)(k + 1);
  G g2(b.Lo(), b.Hi());
  typedef SubGrid<G> V;
  V *vp;
  if (how == 0) vp = new V(sub.Lo(), sub.Hi(), g);
  else if (how == 1) vp = new V(sub.range(), g);
  else if (how == 2) {
    // sizes count from zero: only where the grid allows it
    bool ok = true;
    for (size_t d = 0; d < R; ++d)
      if (b.lo[d] > 0 || b.hi[d] < 0) ok = false;
    if (ok) {
      Array<int, R> size;
      for (size_t d = 0; d < R; ++d) {
        sub.lo[d] = 0;
        sub.hi[d] = (int)s.range(0, b.hi[d]);
        size[d] = sub.hi[d] + 1;
      }
      vp = new V(size, g);
    } else vp = new V(sub.Lo(), sub.Hi(), g);
  } else if (how == 3) {
    vp = new V(sub.Lo(), sub.Lo(), g);
    vp->resize(sub.Lo(), sub.Hi());
  } else if (how == 5) {
    vp = new V();
    if (s.chance(1, 2)) {
      vp->setBaseGrid(g);
      vp->resize(sub.range());
    } else {
      vp->resize(sub.Lo(), sub.Hi());
      vp->setBaseGrid(g);
    }
  } else {
    V first(sub.Lo(), sub.Hi(), g);
    vp = new V(first);
  }
  std::unique_ptr<V> keep(vp);
  V &v = *vp;
  checkExtent<R>(v, sub);
  auto agree = [&](const char *when) {
    for (size_t k = 0; k < b.count(); ++k)
      CHECK(g.get(b.at(k)) == model[k], when << ": cell " << IBox<R>::str(b.at(k)) << " of the grid");
    for (size_t k = 0; k < sub.count(); ++k) {
      Array<int, R> p = sub.at(k);
      CHECK(getForm<R>(v, p, (int)(k % 6)) == model[b.rank_of(p)], when << ": cell " << IBox<R>::str(p) << " of the view");
    }
    std::vector<T> seen;
    auto e = v.end();
    size_t guard = 0;
    for (auto it = v.begin(); it != e && guard++ <= sub.count(); ++it) seen.push_back(*it);
    std::vector<T> cseen;
    auto ce = v.cend();
    guard = 0;
    for (auto it = v.cbegin(); it != ce && guard++ <= sub.count(); ++it) cseen.push_back(*it);
    std::vector<T> want;
    for (size_t k = 0; k < sub.count(); ++k) want.push_back(model[b.rank_of(sub.at(k))]);
    auto i1 = v.begin(), i2 = v.begin();
    auto c1 = v.cbegin(), c2 = v.cbegin();
    CHECK(i1 == i2 && !(i1 != i2) && c1 == c2 && !(c1 != c2), when << ": iterators to the first cell of a view differ");
    CHECK(e == v.end() && ce == v.cend(), when << ": iterators past the last cell of a view differ");
    if (sub.count() > 1) {
      ++i2;
      ++c2;
      CHECK(!(i1 == i2) && i1 != i2 && !(c1 == c2) && c1 != c2, when << ": iterators to two cells of a view are equal");
      V other(sub.Lo(), sub.Hi(), g2);
      CHECK(!(other.begin() == i1) && other.begin() != i1 && !(other.cbegin() == c1) && other.cbegin() != c1,
            when << ": iterators into views of two grids are equal");
    }
    CHECK(seen == want, when << ": iteration over the view gives " << seen.size() << " values");
    CHECK(cseen == want, when << ": const iteration over the view gives " << cseen.size() << " values");
  };
  agree("built");
  for (int n = (int)s.small(6); n-- > 0;) {
    int op = (int)s.range(0, 10);
    T x = (T)s.near0(-50, 50);
    Array<int, R> p = sub.at(s.range(0, sub.count() - 1)), q = b.at(s.range(0, b.count() - 1));
    switch (op) {
      case 0:
        NOTE(s) << "; v" << IBox<R>::str(p) << "=" << x;
        setForm<R>(v, p, (int)s.range(0, 3), x);
        model[b.rank_of(p)] = x;
        break;
      case 1:
        NOTE(s) << "; g" << IBox<R>::str(q) << "=" << x;
        g[q] = x;
        model[b.rank_of(q)] = x;
        break;
      case 2: {
        NOTE(s) << "; v=" << x;
        typename V::GridBaseType &base = v;
        base = x;
        for (size_t k = 0; k < sub.count(); ++k) model[b.rank_of(sub.at(k))] = x;
        break;
      }
      case 3: {
        NOTE(s) << "; *it=" << x;
        size_t k = 0;
        for (auto it = v.begin(); k < sub.count(); ++it, ++k) {
          *it = (T)(x + k);
          model[b.rank_of(sub.at(k))] = (T)(x + k);
        }
        break;
      }
      case 4: {
        NOTE(s) << "; v+=grid";
        Grid<T, R> o(sub.Lo(), sub.Hi());
        for (size_t k = 0; k < sub.count(); ++k) {
          o.get(sub.at(k)) = (T)(x - k);
          model[b.rank_of(sub.at(k))] += (T)(x - k);
        }
        v += o;
        break;
      }
      case 6: {  // the view takes another region
        IBox<R> to = genSub<R>(s, b);
        int w = (int)s.range(0, 5);
        if (w == 3)
          for (size_t d = 0; d < R; ++d) to.lo[d] = sub.hi[d], to.hi[d] = sub.hi[d] + (int)s.range(0, b.hi[d] - sub.hi[d]);
        if (w == 4)
          for (size_t d = 0; d < R; ++d) to.hi[d] = sub.lo[d], to.lo[d] = sub.lo[d] - (int)s.range(0, sub.lo[d] - b.lo[d]);
        NOTE(s) << "; resize the view to " << to.show() << " way " << w;
        Array<int, R> l = to.Lo(), h = to.Hi();
        if (w == 0) v.resize(l, h);
        else if (w == 1) v.resize(to.range());
        else if (w == 2) {
          V other(l, h, g);
          v.resize(other);
        } else if (w == 3) v.resize(v.getHi(), h);
        else if (w == 4) v.resize(l, v.getLo());
        else {
          V other(l, h, g);
          v = other;
        }
        sub = to;
        checkExtent<R>(v, sub);
        break;
      }
      case 7: {  // the grid grows or shrinks around the view
        for (size_t d = 0; d < R; ++d) b.lo[d] = sub.lo[d] - (int)s.range(0, 2), b.hi[d] = sub.hi[d] + (int)s.range(0, 2);
        NOTE(s) << "; resize the grid to " << b.show();
        g.resize(b.Lo(), b.Hi());
        model.resize(b.count());
        for (size_t k = 0; k < b.count(); ++k) g.get(b.at(k)) = model[k] = (T)(x + 2 * k);
        g2.resize(b.Lo(), b.Hi());
        break;
      }
      case 8: {
        NOTE(s) << "; grid+=v";
        Grid<T, R> o(sub.Lo(), sub.Hi());
        for (size_t k = 0; k < sub.count(); ++k) o.get(sub.at(k)) = (T)(x - k);
        o += v;
        for (size_t k = 0; k < sub.count(); ++k)
          CHECK(o.get(sub.at(k)) == (T)((T)(x - k) + model[b.rank_of(sub.at(k))]), "grid to which a view was added, cell " << IBox<R>::str(sub.at(k)));
        break;
      }
      case 9: {
        bool minus = s.chance(1, 2);
        NOTE(s) << (minus ? "; v-=v" : "; v+=v");
        if (minus) v -= v;
        else v += v;
        for (size_t k = 0; k < sub.count(); ++k) {
          T &c = model[b.rank_of(sub.at(k))];
          c = minus ? T(0) : T(c + c);
        }
        break;
      }
      case 10: {
        NOTE(s) << "; v=v" << IBox<R>::str(p);
        typename V::GridBaseType &base = v;
        base = v[p];
        T y = model[b.rank_of(p)];
        for (size_t k = 0; k < sub.count(); ++k) model[b.rank_of(sub.at(k))] = y;
        break;
      }
      default: {
        NOTE(s) << "; v-=grid";
        Grid<T, R> o(sub.Lo(), sub.Hi());
        for (size_t k = 0; k < sub.count(); ++k) {
          o.get(sub.at(k)) = (T)(x + k);
          model[b.rank_of(sub.at(k))] -= (T)(x + k);
        }
        v -= o;
        break;
      }
    }
    agree("after an operation");
  }
  if (sub.count() > 1 && sub.count() < b.count()) s.nontrivial();
}

PROPERTY(view_subgrid) {
  switch (s.range(0, 6)) {
    case 0: return subCase<1, long, SingleArrayGridStorage>(s);
    case 1: return subCase<2, double, SingleArrayGridStorage>(s);
    case 2: return subCase<3, int, SingleArrayGridStorage>(s);
    case 3: return subCase<2, double, SingleArrayGridStorageFortran>(s);
    case 4: return subCase<3, double, LazyArrayGridStorage>(s);
    case 5: return subCase<4, int, SingleArrayGridStorage>(s);
    default: return subCase<5, long, SingleArrayGridStorageFortran>(s);
  }
}

struct Affine {
  typedef double value_type;
  double a, b;
  Affine() : a(1), b(0) {}
  double operator()(int x) const { return a * x + b; }
};

template <size_t R, template <class, size_t> class St>
void transCase(Src &s) {
  typedef Grid<int, R, GridNoArgCheck, St> G;
  IBox<R> b = genIBox<R>(s);
  NOTE(s) << "transform rank " << R << " grid " << b.show();
  G g(b.Lo(), b.Hi());
  std::vector<int> model(b.count());
  for (size_t k = 0; k < b.count(); ++k) g.get(b.at(k)) = model[k] = (int)s.near0(-100, 100);
  typedef GridTransform<G, Affine> V;
  V v(g);
  GridTransform<G, TypeCastTransform<int, double> > tc(g);
  Affine f;
  f.a = (double)s.near0(-4, 4) / 2;
  f.b = (double)s.near0(-20, 20);
  v.setTransformation(f);
  auto agree = [&] {
    checkExtent<R>(v, b);
    checkExtent<R>(tc, b);
    for (size_t k = 0; k < b.count(); ++k) {
      Array<int, R> p = b.at(k);
      double want = f.a * model[k] + f.b;
      for (int form = 0; form < 6; ++form) {
        double have = getForm<R>(v, p, form);
        CHECK(have == want, "view at " << IBox<R>::str(p) << " form " << form << " is " << have << ", expected " << want);
        double have2 = getForm<R>(tc, p, form);
        CHECK(have2 == (double)model[k], "cast view at " << IBox<R>::str(p));
      }
      CHECK(g.get(p) == model[k], "reading a view changes the grid");
    }
    // several cells in one expression
    for (int n = 0; n < 3; ++n) {
      size_t k = s.range(0, b.count() - 1), l = s.range(0, b.count() - 1);
      Array<int, R> p = b.at(k), q = b.at(l);
      double wk = f.a * model[k] + f.b, wl = f.a * model[l] + f.b;
      bool less = v[p] < v[q];
      CHECK(less == (wk < wl), "comparison of the cells " << IBox<R>::str(p) << " and " << IBox<R>::str(q) << " of the view");
      double diff = v[p] - v[q];
      CHECK(diff == wk - wl, "difference of the cells " << IBox<R>::str(p) << " and " << IBox<R>::str(q) << " of the view is " << diff << ", expected " << wk - wl);
      const V &cv = v;
      diff = cv[p] - cv[q];
      CHECK(diff == wk - wl, "difference of two cells of the read-only view is " << diff << ", expected " << wk - wl);
    }
    // iteration of the view follows the iteration of the grid
    std::vector<double> seen, want;
    size_t guard = 0;
    auto e = v.cend();
    for (auto it = v.cbegin(); it != e && guard++ <= b.count(); ++it) seen.push_back(*it);
    for (auto it = g.cbegin(); it != g.cend(); ++it) want.push_back(f.a * *it + f.b);
    CHECK(seen == want, "iteration over the view");
  };
  agree();
  for (int n = (int)s.small(4); n-- > 0;) {
    if (s.chance(1, 3)) {
      f.a = (double)s.near0(-4, 4) / 2;
      f.b = (double)s.near0(-20, 20);
      v.setTransformation(f);
      NOTE(s) << "; f=" << f.a << "*x+" << f.b;
    } else if (s.chance(1, 3)) {
      b = genIBox<R>(s);
      NOTE(s) << "; resize " << b.show();
      g.resize(b.Lo(), b.Hi());
      model.assign(b.count(), 0);
      for (size_t k = 0; k < b.count(); ++k) g.get(b.at(k)) = model[k] = (int)k * 3 - 7;
    } else {
      size_t k = s.range(0, b.count() - 1);
      model[k] = (int)s.near0(-100, 100);
      g.get(b.at(k)) = model[k];
      NOTE(s) << "; write";
    }
    agree();
  }
  if (b.count() > 1) s.nontrivial();
}
/// known finding: references to two cells of a transformed grid that is not const are one and the same object
PROPERTY(probe_transform_references) {
  Grid<int, 1> g(Array<int, 1>(0), Array<int, 1>(1));
  g(0) = 7, g(1) = 3;
  GridTransform<Grid<int, 1>, TypeCastTransform<int, double> > t(g);
  const double &a = t(0), &b = t(1);
  CHECK(a == 7.0 && b == 3.0, "a = t(0), b = t(1) are " << a << " and " << b << ", expected 7 and 3");
  s.nontrivial();
}
PROPERTY(view_transform) {
  switch (s.range(0, 3)) {
    case 0: return transCase<1, SingleArrayGridStorage>(s);
    case 1: return transCase<2, SingleArrayGridStorageFortran>(s);
    case 2: return transCase<3, SingleArrayGridStorage>(s);
    default: return transCase<4, LazyArrayGridStorage>(s);
  }
}

// ---------------------------------------------------------------- P08

template <size_t R>
struct Geo {
  IBox<R> inner;
  double lo[R], hi[R];
  bool stag[R];
  int ghost;
  bool fromSize;
  bool exact;  // cell widths and numbers of cells are powers of two: no rounding whatever the order of the operations
};
template <size_t R>
Geo<R> genGeo(Src &s) {
  Geo<R> g;
  g.inner = genIBox<R>(s, 8, 30);
  g.exact = s.chance(1, 4);
  g.ghost = (int)s.range(0, 4);
  if (R > 3 && g.ghost > 1) g.ghost = 1;
  g.fromSize = s.chance(1, 3);
  for (size_t d = 0; d < R; ++d) {
    g.lo[d] = (double)s.near0(-400, 400) / 8;
    g.hi[d] = g.lo[d] + (double)s.range(1, 800) / 16;
    g.stag[d] = s.chance(1, 2);
    if (g.exact) {
      int n = 1 << s.range(0, R > 2 ? 2 : 4);
      g.inner.hi[d] = g.inner.lo[d] + n - 1;
      g.hi[d] = g.lo[d] + n * std::ldexp(1.0, (int)s.range(0, 4) - 2);
    }
    if (g.fromSize) {
      g.inner.hi[d] -= g.inner.lo[d];
      g.inner.lo[d] = 0;
    }
  }
  return g;
}
template <size_t R>
Array<double, R> dArr(const double *x) {
  Array<double, R> a;
  for (size_t d = 0; d < R; ++d) a[d] = x[d];
  return a;
}

template <size_t R, class F>
void checkField(F &f, const Geo<R> &g) {
  for (size_t d = 0; d < R; ++d) {
    CHECK(f.getInnerLo()[d] == g.inner.lo[d], "inner lower limit " << f.getInnerLo()[d] << " in dimension " << d);
    CHECK(f.getInnerHi()[d] == g.inner.hi[d], "inner upper limit " << f.getInnerHi()[d] << " in dimension " << d);
    auto r = f.getInnerRange();
    CHECK(r.getLo()[d] == g.inner.lo[d] && r.getHi()[d] == g.inner.hi[d], "inner range in dimension " << d);
    CHECK(f.getLo()[d] == g.inner.lo[d] - g.ghost, "lower limit with ghost cells in dimension " << d);
    CHECK(f.getHi()[d] == g.inner.hi[d] + g.ghost, "upper limit with ghost cells in dimension " << d);
    CHECK(f.getStagger((int)d) == g.stag[d] && f.getStagger()[d] == g.stag[d], "stagger in dimension " << d);
    CHECK(f.getDomain().getLo()[d] == g.lo[d] && f.getDomain().getHi()[d] == g.hi[d], "physical domain in dimension " << d);
  }
}

template <size_t R, class F>
void checkPositions(Src &s, F &f, const Geo<R> &g) {
  for (size_t d = 0; d < R; ++d) {
    double n = g.inner.len(d), dx = (g.hi[d] - g.lo[d]) / n, scale = std::abs(g.lo[d]) + std::abs(g.hi[d]) + dx * n;
    double tol = 1e-11 * scale;
    for (int i = g.inner.lo[d] - g.ghost - 3; i <= g.inner.hi[d] + g.ghost + 3; ++i) {
      double want = g.lo[d] + dx * (i - g.inner.lo[d] + (g.stag[d] ? 0.5 : 0.0));
      double x = f.indexToPosition((int)d, i);
      CHECK(std::abs(x - want) <= tol, "position of index " << i << " in dimension " << d << " is " << x << ", expected " << want);
    }
    for (int k = 0; k < 6; ++k) {
      int i = (int)s.range(g.inner.lo[d] - g.ghost - 2, g.inner.hi[d] + g.ghost + 2);
      double t = (double)s.range(1, 999) / 1000;
      // next to a grid point, as close as rounding allows
      if (s.chance(1, 4)) {
        double e = std::max(1e-10, 200 * 2.3e-16 * (scale / dx + std::abs((double)i) + n));
        t = s.chance(1, 2) ? e : 1 - e;
      }
      double x = g.lo[d] + dx * (i - g.inner.lo[d] + (g.stag[d] ? 0.5 : 0.0) + t);
      int idx = 12345;
      double off = -7;
      f.positionToIndex((int)d, x, idx, off);
      CHECK(idx == i, "position " << x << " in dimension " << d << " belongs to cell " << i << ", found " << idx);
      CHECK(std::abs(off - t) <= 1e-9 * (1 + scale / dx + std::abs((double)i)), "offset of " << x << " is " << off << ", expected " << t);
      CHECK(f.positionToIndex((int)d, x) == i, "the two conversions of position " << x << " differ");
      // consistency at a grid point itself: rounding may fall on either side, index plus offset is the point
      double y = f.indexToPosition((int)d, i);
      f.positionToIndex((int)d, y, idx, off);
      CHECK(off >= 0 && off < 1 + 1e-12, "offset " << off << " outside [0,1)");
      if (g.exact) CHECK(idx == i && off == 0, "grid point " << i << " at " << y << " found as " << idx << "+" << off);
      if (g.exact) CHECK(f.positionToIndex((int)d, y) == i, "grid point " << i << " at " << y << " found as " << f.positionToIndex((int)d, y));
      CHECK(std::abs(idx + off - i) <= 1e-9 * (1 + scale / dx + std::abs((double)i)), "index " << i << " -> position -> " << idx << "+" << off);
    }
  }
}

template <size_t R, template <size_t> class Ck, template <class, size_t> class St>
void fieldCase(Src &s) {
  typedef Field<double, R, Ck, St> F;
  Geo<R> g = genGeo<R>(s);
  auto show = [&](const char *w, int form) {
    NOTE(s) << w << " form " << form << " rank " << R << " inner " << g.inner.show() << " ghost " << g.ghost << " domain";
    for (size_t d = 0; d < R; ++d) NOTE(s) << " [" << g.lo[d] << "," << g.hi[d] << "]" << (g.stag[d] ? "s" : "");
  };
  auto stag = [&] {
    Array<bool, R> a;
    for (size_t d = 0; d < R; ++d) a[d] = g.stag[d];
    return a;
  };
  auto dom = [&] { return Range<double, R>(dArr<R>(g.lo), dArr<R>(g.hi)); };
  auto size = [&] {
    Array<int, R> a;
    for (size_t d = 0; d < R; ++d) a[d] = g.inner.len(d);
    return a;
  };
  int form = g.fromSize ? 0 : (int)s.range(1, 2);
  bool viaResize = s.chance(1, 3);
  show(viaResize ? "resize" : "construct", form);
  std::unique_ptr<F> f;
  if (viaResize) {
    f.reset(new F());
    if (form == 0) f->resize(size(), dom(), stag(), g.ghost);
    else if (form == 1) f->resize(g.inner.Lo(), g.inner.Hi(), dom(), stag(), g.ghost);
    else f->resize(g.inner.range(), dom(), stag(), g.ghost);
  } else if (form == 0) f.reset(new F(size(), dom(), stag(), g.ghost));
  else if (form == 1) f.reset(new F(g.inner.Lo(), g.inner.Hi(), dom(), stag(), g.ghost));
  else f.reset(new F(g.inner.range(), dom(), stag(), g.ghost));
  checkField<R>(*f, g);
  checkPositions<R>(s, *f, g);
  int n = (int)s.small(3);
  for (int k = 0; k < n; ++k) {
    int op = (int)s.range(0, 6);
    if (op == 0) {
      std::unique_ptr<F> c(new F(*f));
      f = std::move(c);
      NOTE(s) << "; copy";
    } else if (op == 3) {  // assigned over a field of another geometry
      Geo<R> h = g;
      g = genGeo<R>(s);
      std::unique_ptr<F> c(new F(g.inner.Lo(), g.inner.Hi(), dom(), stag(), g.ghost));
      g = h;
      *c = *f;
      checkField<R>(*f, g);
      f = std::move(c);
      NOTE(s) << "; assign over another";
    } else if (op == 4) {
      F &same = *f;
      *f = same;
      NOTE(s) << "; self assign";
    } else if (op == 5) {
      size_t d = s.range(0, R - 1);
      f->getStagger()[d] = g.stag[d] = s.chance(1, 2);
      NOTE(s) << "; stagger " << d << "=" << g.stag[d];
    } else if (op == 6) {  // resized with what it is asked for itself
      int how = (int)s.range(0, 3), gh = (int)s.range(0, R > 3 ? 1 : 3);
      NOTE(s) << "; resize with its own geometry, form " << how << " ghost " << gh;
      if (how == 0) f->resize(f->getInnerRange(), f->getDomain(), f->getStagger(), gh);
      else if (how == 1) f->resize(f->getInnerLo(), f->getInnerHi(), f->getDomain(), f->getStagger(), gh);
      else if (how == 2) {  // the ghost cells become inner cells
        for (size_t d = 0; d < R; ++d) g.inner.lo[d] -= g.ghost, g.inner.hi[d] += g.ghost;
        f->resize(f->getLo(), f->getHi(), f->getDomain(), f->getStagger(), gh);
      } else {
        for (size_t d = 0; d < R; ++d) g.inner.hi[d] += 2 * g.ghost - g.inner.lo[d], g.inner.lo[d] = 0;
        f->resize(f->getDims(), f->getDomain(), f->getStagger(), gh);
      }
      g.ghost = gh;
      if (how > 1) g.exact = false;
    } else if (op == 1) {
      std::unique_ptr<F> c(new F());
      *c = *f;
      f = std::move(c);
      NOTE(s) << "; assign";
    } else {
      g = genGeo<R>(s);
      form = g.fromSize ? 0 : (int)s.range(1, 2);
      show("; resize", form);
      if (form == 0) f->resize(size(), dom(), stag(), g.ghost);
      else if (form == 1) f->resize(g.inner.Lo(), g.inner.Hi(), dom(), stag(), g.ghost);
      else f->resize(g.inner.range(), dom(), stag(), g.ghost);
    }
    checkField<R>(*f, g);
    checkPositions<R>(s, *f, g);
  }
  // every cell, ghost cells included, exists and is distinct
  IBox<R> all = g.inner;
  for (size_t d = 0; d < R; ++d) all.lo[d] -= g.ghost, all.hi[d] += g.ghost;
  if (all.count() <= 20000) {
    *f = -1.0;
    for (size_t k = 0; k < all.count(); ++k) {
      CHECK((*f)[all.at(k)] == -1.0, "fill missed a cell or cells overlap at " << IBox<R>::str(all.at(k)));
      (*f)[all.at(k)] = (double)k;
    }
    for (size_t k = 0; k < all.count(); ++k) CHECK((*f)[all.at(k)] == (double)k, "cell " << IBox<R>::str(all.at(k)));
  }
  s.nontrivial();
}

PROPERTY(field_geometry) {
  switch (s.range(0, 5)) {
    case 0: return fieldCase<1, GridNoArgCheck, SingleArrayGridStorage>(s);
    case 1: return fieldCase<2, GridNoArgCheck, SingleArrayGridStorage>(s);
    case 2: return fieldCase<3, GridNoArgCheck, SingleArrayGridStorage>(s);
    case 3: return fieldCase<2, GridAssertCheck, SingleArrayGridStorageFortran>(s);
    case 4: return fieldCase<3, GridDebugCheck, LazyArrayGridStorage>(s);
    default: return fieldCase<4, GridNoArgCheck, SingleArrayGridStorageFortran>(s);
  }
}

// ---------------------------------------------------------------- P09

template <size_t R, class D>
IBox<R> fromDom(const D &d) {
  IBox<R> b;
  for (size_t i = 0; i < R; ++i) b.lo[i] = d.getLo()[i], b.hi[i] = d.getHi()[i];
  return b;
}

template <size_t R, template <size_t> class Ck>
void boundaryCase(Src &s) {
  typedef Boundary<R, Ck> B;
  int delta = (int)s.range(0, 4);
  // usually the inner region is at least as wide as the ghost region (a neighbour's ghost cells come from it)
  IBox<R> inner, all;
  bool thin = s.chance(1, 8), hollow = false;
  for (size_t d = 0; d < R; ++d) {
    int lo = (int)(s.chance(1, 20) ? s.near0(-2000000000, 2000000000) : s.near0(-40, 40)), len = std::max(delta, 1) + (int)s.small(R > 2 ? 4 : 9);
    if (thin) len = (int)s.range(0, delta);
    hollow = hollow || len == 0;
    inner.lo[d] = lo;
    inner.hi[d] = lo + len - 1;
    all.lo[d] = lo - delta;
    all.hi[d] = lo + len - 1 + delta;
  }
  NOTE(s) << "rank " << R << " domain " << all.show() << " ghost cells " << delta;
  Array<int, R, Ck> lo(all.Lo()), hi(all.Hi());
  Range<int, R, Ck> rng(lo, hi);
  std::unique_ptr<B> bp(s.chance(1, 2) ? new B(lo, hi, delta) : new B(rng, delta));
  B &b = *bp;
  CHECK(b.getDelta() == delta, "number of ghost cells");
  CHECK(fromDom<R>(b.getDomain()) == all, "domain");
  IBox<R> in = fromDom<R>(b.getInnerDomain());
  CHECK(in == inner, "inner domain " << in.show());
  typedef typename B::bound Bd;
  for (size_t dim = 0; dim < R; ++dim) {
    for (int side = 0; side < 2; ++side) {
      Bd bd = side ? B::Max : B::Min;
      // the two ghost slabs of a dimension and what is between them tile the domain
      IBox<R> want = all, src = all;
      if (side) {
        want.lo[dim] = inner.hi[dim] + 1;
        src.hi[dim] = inner.hi[dim];
        src.lo[dim] = inner.hi[dim] - delta + 1;
      } else {
        want.hi[dim] = inner.lo[dim] - 1;
        src.lo[dim] = inner.lo[dim];
        src.hi[dim] = inner.lo[dim] + delta - 1;
      }
      IBox<R> gd = fromDom<R>(b.getGhostDomain(dim, bd));
      CHECK(gd == want, "ghost domain of dimension " << dim << " side " << side << ": " << gd.show() << ", expected " << want.show());
      IBox<R> gs = fromDom<R>(b.getGhostSourceDomain(dim, bd));
      CHECK(gs == src, "source domain of dimension " << dim << " side " << side << ": " << gs.show() << ", expected " << src.show());
      // a neighbour's ghost cells, seen from it, are exactly these cells
      IBox<R> nb = fromDom<R>(b.getGhostDomain(dim, side ? B::Min : B::Max));
      int shift = side ? inner.len(dim) : -inner.len(dim);
      CHECK(nb.lo[dim] + shift == gs.lo[dim] && nb.hi[dim] + shift == gs.hi[dim],
            "source cells of dimension " << dim << " are not the neighbour's ghost cells");
      for (int st = 0; st < 2; ++st) {
        IBox<R> bw = want;
        if (!side) bw.hi[dim] -= st;
        IBox<R> bb = fromDom<R>(b.getBoundaryDomain(dim, bd, st));
        CHECK(bb == bw, "boundary domain of dimension " << dim << " side " << side << " stagger " << st << ": " << bb.show()
                                                       << ", expected " << bw.show());
      }
      // asking does not change anything
      CHECK(fromDom<R>(b.getDomain()) == all, "domain changed by a query");
    }
  }
  // sub grids of ghost cells alias the grid
  if (delta > 0 && !hollow && all.count() < 5000) {
    size_t dim = s.range(0, R - 1);
    bool side = s.chance(1, 2);
    bool useField = s.chance(1, 2);
    bool stg = useField && s.chance(1, 2);
    if (stg && !side && delta < 2) stg = false;
    IBox<R> want = all;
    if (side) want.lo[dim] = inner.hi[dim] + 1;
    else want.hi[dim] = inner.lo[dim] - 1 - (stg ? 1 : 0);
    NOTE(s) << " ghost sub grid dim " << dim << " side " << side << (useField ? " field" : " grid") << (stg ? " staggered" : "");
    Grid<int, R> g(all.Lo(), all.Hi());
    g = 0;
    Array<bool, R> sg;
    for (size_t d = 0; d < R; ++d) sg[d] = d == dim ? stg : !stg;
    Array<double, R> dl(0.0), dh(1.0);
    Field<int, R> f(inner.Lo(), inner.Hi(), Range<double, R>(dl, dh), sg, delta);
    f = 0;
    if (useField) {
      auto v = b.getGhostBoundary(dim, side ? B::Max : B::Min, f);
      checkExtent<R>(v, want);
      for (size_t k = 0; k < want.count(); ++k) v[want.at(k)] = 1;
    } else {
      auto v = b.getGhostBoundary(dim, side ? B::Max : B::Min, g);
      checkExtent<R>(v, want);
      for (size_t k = 0; k < want.count(); ++k) v[want.at(k)] = 1;
    }
    for (size_t k = 0; k < all.count(); ++k) {
      Array<int, R> p = all.at(k);
      int have = useField ? f[p] : g[p];
      CHECK(have == (want.has(&p[0]) ? 1 : 0), "cell " << IBox<R>::str(p) << " after writing the ghost sub grid");
    }
  }
  if (delta > 0) s.nontrivial();
}
PROPERTY(boundary_regions) {
  switch (s.range(0, 4)) {
    case 0: return boundaryCase<1, ArrayNoArgCheck>(s);
    case 1: return boundaryCase<2, ArrayNoArgCheck>(s);
    case 2: return boundaryCase<3, ArrayNoArgCheck>(s);
    case 3: return boundaryCase<2, ArrayAssertArgCheck>(s);
    default: return boundaryCase<4, ArrayNoArgCheck>(s);
  }
}
