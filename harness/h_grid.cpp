// P03 grid addressing, P04 grid sharing histories, P05 whole-grid operations
#include <complex>
#include "boxes.hpp"
#include <iterator>
#include <memory>
#include <grid/grid.hpp>
#include <grid/arrayexpression.hpp>
#include <grid/gridstorage/kokkos-storage.hpp>

using namespace schnek;
using pbt::Src;

static void kokkosUp() {
  static bool up = false;
  if (!up) {
    Kokkos::initialize();
    up = true;
  }
}

struct StC {
  template <class T, size_t R>
  using type = SingleArrayGridStorage<T, R>;
  static const int raw = 1;
  static const char *name() { return "C"; }
};
struct StF {
  template <class T, size_t R>
  using type = SingleArrayGridStorageFortran<T, R>;
  static const int raw = 2;
  static const char *name() { return "Fortran"; }
};
struct StL {
  template <class T, size_t R>
  using type = LazyArrayGridStorage<T, R>;
  static const int raw = 1;
  static const char *name() { return "lazy"; }
};
struct StK {
  template <class T, size_t R>
  using type = KokkosDefaultGridStorage<T, R>;
  static const int raw = 0;
  static const char *name() { return "Kokkos"; }
};

// ---------------------------------------------------------------- access forms

template <class G, size_t R, size_t... I>
decltype(auto) call(G &g, const Array<int, R> &p, std::index_sequence<I...>) {
  return g(p[I]...);
}

template <size_t R, class G>
void setAt(G &g, const Array<int, R> &p, typename G::value_type v, int form) {
  Array<int, R, ArrayAssertArgCheck> pc(p);
  Array<int, R> off;
  for (size_t d = 0; d < R; ++d) off[d] = (int)d - 2;
  Array<int, R> base = p - off;
  switch (form) {
    case 0: g[p] = v; break;
    case 1: g[pc] = v; break;
    case 2: call(g, p, std::make_index_sequence<R>()) = v; break;
    case 3: g[base + off] = v; break;
    case 4: g.get(p) = v; break;
    case 5:
      if constexpr (R == 1) g[p[0]] = v;
      else g[p] = v;
      break;
  }
}
template <size_t R, class G>
typename G::value_type getAt(const G &cg, const Array<int, R> &p, int form) {
  G &g = const_cast<G &>(cg);
  Array<int, R, ArrayAssertArgCheck> pc(p);
  Array<int, R> off;
  for (size_t d = 0; d < R; ++d) off[d] = 3 - (int)d;
  Array<int, R> base = p - off;
  switch (form) {
    case 0: return cg[p];
    case 1: return cg[pc];
    case 2: return call(cg, p, std::make_index_sequence<R>());
    case 3: return cg[base + off];
    case 4: return cg.get(p);
    case 5: return g[p];
    case 6: return call(g, p, std::make_index_sequence<R>());
    case 7: return g[base + off];
    case 8:
      if constexpr (R == 1) return cg[p[0]];
      else return g.get(p);
    default:
      if constexpr (R == 1) return g[p[0]];
      else return g[pc];
  }
}
const int NSET = 6, NGET = 10;

template <size_t R, class G>
void checkExtent(const G &g, const IBox<R> &b, const char *what) {
  size_t n = b.count();
  for (size_t d = 0; d < R; ++d) {
    CHECK(g.getLo()[d] == b.lo[d] && g.getLo((int)d) == b.lo[d], what << ": lower bound " << d << " is " << g.getLo((int)d) << " instead of " << b.lo[d]);
    CHECK(g.getHi()[d] == b.hi[d] && g.getHi((int)d) == b.hi[d], what << ": upper bound " << d << " is " << g.getHi((int)d) << " instead of " << b.hi[d]);
    CHECK(g.getDims()[d] == b.len(d) && g.getDims((int)d) == b.len(d), what << ": dimension " << d << " is " << g.getDims((int)d) << " instead of " << b.len(d));
    CHECK(g.getRange().getLo()[d] == b.lo[d] && g.getRange().getHi()[d] == b.hi[d], what << ": range, dimension " << d);
  }
  CHECK((size_t)g.getSize() == n, what << ": size is " << g.getSize() << " instead of " << n);
}

template <size_t R, class G>
std::unique_ptr<G> makeGrid(Src &s, const IBox<R> &b) {
  std::unique_ptr<G> g;
  bool zero = true;
  for (size_t d = 0; d < R; ++d) zero = zero && b.lo[d] == 0;
  typename G::IndexType len;
  for (size_t d = 0; d < R; ++d) len[d] = b.len(d);
  int how = (int)s.draw(7);
  if (!zero && (how == 5 || how == 6)) how -= 5;
  NOTE(s) << "made by way " << how << "\n";
  switch (how) {
    case 0: g.reset(new G(b.Lo(), b.Hi())); break;
    case 1: g.reset(new G(b.range())); break;
    case 2: g.reset(new G()); g->resize(b.Lo(), b.Hi()); break;
    case 3: { IBox<R> o = genIBox<R>(s, 3); g.reset(new G(o.Lo(), o.Hi())); g->resize(b.range()); break; }
    case 4: { Grid<char, R> like(b.Lo(), b.Hi()); g.reset(new G()); g->resize(like); break; }
    case 5: g.reset(new G(len)); break;
    case 6: g.reset(new G()); g->resize(len); break;
  }
  return g;
}

template <class St, size_t R, template <size_t> class Chk>
void addressing(Src &s) {
  typedef Grid<double, R, Chk, St::template type> G;
  IBox<R> b = genIBox<R>(s);
  if (s.chance(1, 4))
    for (size_t d = 0; d < R; ++d) {
      b.hi[d] -= b.lo[d];
      b.lo[d] = 0;
    }
  NOTE(s) << St::name() << " grid " << b.show() << "\n";
  s.label(std::string(St::name()) + " rank " + std::to_string(R));
  std::unique_ptr<G> gp = makeGrid<R, G>(s, b);
  G &g = *gp;
  size_t n = b.count();
  if (n > 1) s.nontrivial();
  checkExtent<R>(g, b, "new grid");
  // every cell is its own cell: write all, in a generated form, then read all in every form
  double base = (double)s.range(0, 1000);
  int wf = (int)s.draw(NSET + 1);
  std::vector<double> model(n);
  for (size_t k = 0; k < n; ++k) {
    model[k] = base + (double)k;
    setAt<R>(g, b.at(k), model[k], wf == NSET ? (int)(k % NSET) : wf);
  }
  int over = (int)s.range(0, 4);
  for (int q = 0; q < over; ++q) {
    size_t k = s.draw(n);
    model[k] = -1.0 - q;
    setAt<R>(g, b.at(k), model[k], (int)s.draw(NSET));
  }
  for (int f = 0; f < NGET; ++f)
    for (size_t k = 0; k < n; ++k) {
      double v = getAt<R>(g, b.at(k), f);
      CHECK(v == model[k], "cell " << IBox<R>::str(b.at(k)) << " reads " << v << " instead of " << model[k] << " (read form " << f << ", written with form " << wf << ")");
    }
  // memory layout
  if constexpr (St::raw != 0) {
    const double *raw = g.getRawData();
    for (size_t k = 0; k < n; ++k) {
      auto p = b.at(k);
      size_t pos = St::raw == 1 ? b.rank_of(p) : b.rank_of_fortran(p);
      CHECK(raw[pos] == model[k], "raw position " << pos << " should hold cell " << IBox<R>::str(p));
      CHECK(&g.get(p) == raw + pos, "cell " << IBox<R>::str(p) << " is not at raw position " << pos);
    }
    CHECK((size_t)(g.end() - g.begin()) == n && g.begin() == raw, "storage iterators span the raw data");
    CHECK((size_t)(g.cend() - g.cbegin()) == n && g.cbegin() == raw, "const storage iterators span the raw data");
    for (size_t k = 0; k < n; ++k) CHECK(*(g.begin() + k) == raw[k], "storage iterator position " << k);
  }
  for (size_t d = 0; d < R; ++d)
    if (b.len(d) > 1) {
      auto p = b.at(0), q = b.at(0);
      q[d] += 1;
      CHECK(&g.get(q) - &g.get(p) == g.stride(d), "stride of dimension " << d << " is " << g.stride(d) << " instead of " << (&g.get(q) - &g.get(p)));
    }
}

template <class St>
void addressingRank(Src &s) {
  bool chk = s.chance(1, 3);
  switch (s.draw(6)) {
    case 0: addressing<St, 1, GridNoArgCheck>(s); break;
    case 1: chk ? addressing<St, 2, GridAssertCheck>(s) : addressing<St, 2, GridNoArgCheck>(s); break;
    case 2: chk ? addressing<St, 3, GridDebugCheck>(s) : addressing<St, 3, GridNoArgCheck>(s); break;
    case 3: addressing<St, 4, GridNoArgCheck>(s); break;
    case 4: addressing<St, 5, GridNoArgCheck>(s); break;
    case 5: addressing<St, 6, GridNoArgCheck>(s); break;
  }
}
PROPERTY(grid_addressing) {
  switch (s.draw(3)) {
    case 0: addressingRank<StC>(s); break;
    case 1: addressingRank<StF>(s); break;
    case 2: addressingRank<StL>(s); break;
  }
}
PROPERTY(grid_addressing_kokkos) {
  kokkosUp();
  switch (s.draw(4)) {
    case 0: addressing<StK, 1, GridNoArgCheck>(s); break;
    case 1: addressing<StK, 2, GridAssertCheck>(s); break;
    case 2: addressing<StK, 3, GridNoArgCheck>(s); break;
    case 3: addressing<StK, 4, GridNoArgCheck>(s); break;
  }
}
// high ranks: only the call operator with 7 to 10 indices differs
PROPERTY(grid_addressing_high) {
  switch (s.draw(8)) {
    case 0: addressing<StC, 7, GridNoArgCheck>(s); break;
    case 1: addressing<StC, 8, GridNoArgCheck>(s); break;
    case 2: addressing<StC, 9, GridNoArgCheck>(s); break;
    case 3: addressing<StC, 10, GridNoArgCheck>(s); break;
    case 4: addressing<StF, 7, GridNoArgCheck>(s); break;
    case 5: addressing<StF, 8, GridNoArgCheck>(s); break;
    case 6: addressing<StF, 9, GridNoArgCheck>(s); break;
    case 7: addressing<StF, 10, GridNoArgCheck>(s); break;
  }
}

// more cells than fit an int: only a few of them are touched, so the memory is never really used
template <class St, size_t R>
void hugeCase(Src &s) {
  typedef Grid<char, R, GridNoArgCheck, St::template type> G;
  const double want = 2147483648.0 + (double)s.range(1, 1 << 28);
  Array<int, R> lo, hi;
  double rest = want;
  for (size_t d = 0; d < R; ++d) {
    double len = d + 1 == R ? std::ceil(rest) : std::ceil(std::pow(want, 1.0 / R) * (0.5 + 0.01 * (double)s.range(0, 100)));
    rest /= len;
    lo[d] = (int)s.near0(-1000, 1000);
    hi[d] = lo[d] + (int)len - 1;
  }
  NOTE(s) << St::name() << " grid with " << want << " cells or a few more, " << IBox<R>::str(lo) << " to " << IBox<R>::str(hi) << "\n";
  s.label(std::string("huge ") + St::name() + " rank " + std::to_string(R));
  s.nontrivial();
  std::unique_ptr<G> g;
  if (s.chance(1, 2)) g.reset(new G(lo, hi));
  else {
    g.reset(new G(lo, lo));
    g->resize(lo, hi);
  }
  size_t n = 1;
  for (size_t d = 0; d < R; ++d) n *= (size_t)(hi[d] - lo[d] + 1);
  char *raw = g->getRawData();
  CHECK((size_t)(g->end() - g->begin()) == n && (size_t)(g->cend() - g->cbegin()) == n, "iterators of a grid of " << n << " cells span " << (g->end() - g->begin()));
  for (int q = 0; q < 12; ++q) {
    Array<int, R> p;
    for (size_t d = 0; d < R; ++d) p[d] = q == 0 ? lo[d] : q == 1 ? hi[d] : s.chance(1, 3) ? hi[d] - (int)s.range(0, 3) : lo[d] + (int)s.range(0, hi[d] - lo[d]);
    size_t pos = 0;
    if (St::raw == 1)
      for (size_t d = 0; d < R; ++d) pos = pos * (size_t)(hi[d] - lo[d] + 1) + (size_t)(p[d] - lo[d]);
    else
      for (size_t d = R; d-- > 0;) pos = pos * (size_t)(hi[d] - lo[d] + 1) + (size_t)(p[d] - lo[d]);
    const G &cg = *g;
    CHECK(&g->get(p) == raw + pos && &cg.get(p) == raw + pos, "cell " << IBox<R>::str(p) << " is at offset " << (&g->get(p) - raw) << " instead of " << pos);
    char v = (char)s.range(1, 100);
    setAt<R>(*g, p, v, (int)s.draw(NSET));
    CHECK(raw[pos] == v && getAt<R>(*g, p, (int)s.draw(NGET)) == v, "cell " << IBox<R>::str(p) << " does not hold what was written");
  }
  for (size_t d = 0; d < R; ++d) {
    Array<int, R> q = lo;
    q[d] += 1;
    CHECK(&g->get(q) - &g->get(lo) == g->stride(d), "stride of dimension " << d << " is " << g->stride(d));
  }
}
PROPERTY(grid_huge) {
  switch (s.draw(4)) {
    case 0: hugeCase<StC, 2>(s); break;
    case 1: hugeCase<StC, 3>(s); break;
    case 2: hugeCase<StF, 2>(s); break;
    default: hugeCase<StF, 3>(s); break;
  }
}

// ---------------------------------------------------------------- sharing histories

template <class St, size_t R>
struct Sharing {
  typedef Grid<int, R, GridNoArgCheck, St::template type> G;
  struct Group {
    bool sized = false;
    IBox<R> box;
    std::vector<int> val;
  };
  static const int N = 24;
  int used = 5;
  std::unique_ptr<G> g[N];
  std::shared_ptr<Group> m[N];
  Src &s;
  int counter = 0;
  explicit Sharing(Src &s_) : s(s_) {}

  void fillAll(int i) {
    Group &q = *m[i];
    q.val.resize(q.box.count());
    int form = (int)s.draw(NSET);
    for (size_t k = 0; k < q.val.size(); ++k) {
      q.val[k] = ++counter;
      setAt<R>(*g[i], q.box.at(k), q.val[k], form);
    }
  }
  void invariant(const std::string &what) {
    for (int i = 0; i < N; ++i)
      if (g[i] && m[i]->sized) {
        std::string w = "grid " + std::to_string(i) + " after " + what;
        checkExtent<R>(*g[i], m[i]->box, w.c_str());
        for (size_t k = 0; k < m[i]->val.size(); ++k) {
          int v = getAt<R>(*g[i], m[i]->box.at(k), (int)(k % 3));
          CHECK(v == m[i]->val[k], w << ": cell " << IBox<R>::str(m[i]->box.at(k)) << " reads " << v << " instead of " << m[i]->val[k]);
        }
        if constexpr (St::raw != 0)
          for (int j = 0; j < i; ++j)
            if (g[j] && m[j]->sized) CHECK((g[i]->getRawData() == g[j]->getRawData()) == (m[i] == m[j]), "grids " << i << " and " << j << (m[i] == m[j] ? " should share" : " should not share") << " their data after " << what);
      }
  }
  int anyLive(bool sized) {
    std::vector<int> c;
    for (int i = 0; i < N; ++i)
      if (g[i] && (!sized || m[i]->sized)) c.push_back(i);
    return c.empty() ? -1 : s.pick(c);
  }
  void step() {
    int op = (int)s.draw(12);
    int i = (int)s.draw(used);
    std::ostringstream w;
    switch (op) {
      case 0: case 1: {
        m[i].reset(new Group);
        m[i]->sized = true;
        m[i]->box = genIBox<R>(s, 4, 5);
        w << "g" << i << " = new grid " << m[i]->box.show();
        NOTE(s) << w.str() << "\n";
        g[i].reset(new G(m[i]->box.Lo(), m[i]->box.Hi()));
        fillAll(i);
        break;
      }
      case 2: {
        w << "g" << i << " = default grid";
        NOTE(s) << w.str() << "\n";
        g[i].reset(new G());
        m[i].reset(new Group);
        break;
      }
      case 3: case 4: {  // copy construction
        int j = anyLive(false);
        if (j < 0) return;
        w << "g" << i << " copy constructed from g" << j;
        NOTE(s) << w.str() << "\n";
        std::unique_ptr<G> c(new G(*g[j]));
        m[i] = m[j];
        g[i] = std::move(c);
        s.label("copy");
        break;
      }
      case 5: case 6: {  // assignment
        int j = anyLive(false);
        if (j < 0 || !g[i]) return;
        w << "g" << i << " = g" << j;
        NOTE(s) << w.str() << "\n";
        *g[i] = *g[j];
        if (m[i] != m[j]) s.label("reassign");
        m[i] = m[j];
        break;
      }
      case 7: case 8: {  // resize, seen by all copies
        if (!g[i]) return;
        IBox<R> b = genIBox<R>(s, 5, 5);
        w << "resize g" << i << " to " << b.show();
        NOTE(s) << w.str() << "\n";
        int how = (int)s.draw(9), j = how > 2 ? anyLive(true) : -1;
        if (how > 2 && j < 0) how = 0;
        if (how > 2) {
          // the limits are taken from the grid itself or another one
          IBox<R> o = m[j]->box;
          if (how <= 5) b = o;
          else if (how == 6)
            for (size_t d = 0; d < R; ++d) b.hi[d] = o.len(d) - 1, b.lo[d] = 0;
          else if (how == 7)
            for (size_t d = 0; d < R; ++d) b.hi[d] = o.hi[d] + (int)s.draw(4), b.lo[d] = o.hi[d];
          else
            for (size_t d = 0; d < R; ++d) b.lo[d] = o.lo[d] - (int)s.draw(4), b.hi[d] = o.lo[d];
          NOTE(s) << "  " << b.show() << ", way " << how << ", limits of g" << j << "\n";
          s.label("limits of a grid");
        }
        G &o = *g[how > 2 ? j : i];
        typename G::IndexType l = b.Lo(), h = b.Hi();
        switch (how) {
          case 0: g[i]->resize(b.Lo(), b.Hi()); break;
          case 1: g[i]->resize(b.range()); break;
          case 2: {
            Grid<char, R> like(b.Lo(), b.Hi());
            g[i]->resize(like);
            break;
          }
          case 3: g[i]->resize(o.getLo(), o.getHi()); break;
          case 4: g[i]->resize(o.getRange()); break;
          case 5: g[i]->resize(o); break;
          case 6: g[i]->resize(o.getDims()); break;
          case 7: g[i]->resize(o.getHi(), h); break;
          default: g[i]->resize(l, o.getLo()); break;
        }
        m[i]->sized = true;
        m[i]->box = b;
        int users = 0;
        for (int j = 0; j < N; ++j) users += g[j] && m[j] == m[i];
        if (users > 1) {
          s.label("resize shared");
          s.nontrivial();
        }
        // the contents after a resize are unspecified: refill through any of the sharing grids
        std::vector<int> c;
        for (int j = 0; j < N; ++j)
          if (g[j] && m[j] == m[i]) c.push_back(j);
        fillAll(s.pick(c));
        break;
      }
      case 9: case 10: {  // write one cell through one copy
        int j = anyLive(true);
        if (j < 0) return;
        size_t k = s.draw(m[j]->val.size());
        w << "write g" << j << IBox<R>::str(m[j]->box.at(k));
        NOTE(s) << w.str() << "\n";
        m[j]->val[k] = ++counter;
        setAt<R>(*g[j], m[j]->box.at(k), m[j]->val[k], (int)s.draw(NSET));
        break;
      }
      case 11: {
        w << "destroy g" << i;
        NOTE(s) << w.str() << "\n";
        g[i].reset();
        m[i].reset();
        break;
      }
    }
    invariant(w.str());
  }
};

template <class St, size_t R>
void sharing(Src &s) {
  NOTE(s) << St::name() << " storage, rank " << R << "\n";
  s.label(std::string(St::name()) + " rank " + std::to_string(R));
  Sharing<St, R> h(s);
  bool big = s.chance(1, 60);
  if (big) h.used = h.N;
  int n = (int)s.range(2, big ? 120 : 24);
  for (int i = 0; i < n; ++i) h.step();
}
PROPERTY(grid_sharing) {
  switch (s.draw(6)) {
    case 0: sharing<StC, 1>(s); break;
    case 1: sharing<StC, 2>(s); break;
    case 2: sharing<StC, 3>(s); break;
    case 3: sharing<StF, 2>(s); break;
    case 4: sharing<StF, 3>(s); break;
    case 5: sharing<StF, 1>(s); break;
  }
}
PROPERTY(grid_sharing_lazy) {
  switch (s.draw(3)) {
    case 0: sharing<StL, 1>(s); break;
    case 1: sharing<StL, 2>(s); break;
    case 2: sharing<StL, 3>(s); break;
  }
}
PROPERTY(grid_sharing_kokkos) {
  kokkosUp();
  switch (s.draw(3)) {
    case 0: sharing<StK, 1>(s); break;
    case 1: sharing<StK, 2>(s); break;
    case 2: sharing<StK, 3>(s); break;
  }
}

// Lazy storage: long resize histories with large size changes, so that buffers are kept, reused and given back.
PROPERTY(lazy_resize) {
  typedef Grid<int, 2, GridNoArgCheck, LazyArrayGridStorage> G;
  G g;
  std::unique_ptr<G> copy;
  int n = (int)s.range(1, 60);
  int kept = 0;
  const void *lastRaw = nullptr;
  NOTE(s) << "lazy resizes:";
  for (int i = 0; i < n; ++i) {
    IBox<2> b;
    int mode = (int)s.draw(4);
    if (s.chance(1, 100)) mode = 5;
    for (int d = 0; d < 2; ++d) {
      b.lo[d] = (int)s.near0(-20, 20);
      b.hi[d] = b.lo[d] + (int)s.range(0, mode == 5 ? 250 : mode == 0 ? 40 : mode == 1 ? 2 : 12);
    }
    NOTE(s) << " " << b.show();
    if (s.chance(1, 6)) {
      copy.reset(new G(g));
      NOTE(s) << "(copied)";
    }
    if (copy && s.chance(1, 4)) copy->resize(b.Lo(), b.Hi());
    else if (copy && s.chance(1, 6)) {
      G other;
      other.resize(b.Lo(), b.Hi());
      g = other;
      copy.reset();
      NOTE(s) << "(assigned)";
    } else {
      bool separate = false;
      g.resize(b.Lo(), b.Hi());
      (void)separate;
    }
    checkExtent<2>(g, b, "lazily resized grid");
    if (copy) checkExtent<2>(*copy, b, "copy of the lazily resized grid");
    if (g.getRawData() == lastRaw) ++kept;
    lastRaw = g.getRawData();
    size_t c = b.count();
    for (size_t k = 0; k < c; ++k) setAt<2>(g, b.at(k), (int)(k + i * 10000), 2);
    for (size_t k = 0; k < c; ++k) {
      CHECK(getAt<2>(g, b.at(k), 2) == (int)(k + i * 10000), "cell " << k << " of the resized grid");
      if (copy) CHECK(getAt<2>(*copy, b.at(k), 0) == (int)(k + i * 10000), "cell " << k << " seen through the copy");
    }
  }
  NOTE(s) << "\n";
  if (kept) {
    s.label("buffer kept over a resize");
    s.nontrivial();
  }
}

// ---------------------------------------------------------------- whole-grid operations

/// a value of an element type from a whole number of halves
template <class T>
struct Val {
  static T of(int v) { return (T)v / 2; }
  static T whole(int v) { return (T)v; }
};
template <>
struct Val<std::complex<double>> {
  static std::complex<double> of(int v) { return {v / 2.0, 3 - v * 1.5}; }
  static std::complex<double> whole(int v) { return {(double)v, v - 1.0}; }
};
template <>
struct Val<Array<double, 2>> {
  static Array<double, 2> of(int v) { return Array<double, 2>(v / 2.0, 3 - v * 1.5); }
  static Array<double, 2> whole(int v) { return Array<double, 2>((double)v, v - 1.0); }
};
template <class T>
std::string valText(const T &v) {
  std::ostringstream o;
  o << v;
  return o.str();
}
std::string valText(const Array<double, 2> &v) { return "(" + valText(v[0]) + "," + valText(v[1]) + ")"; }

template <class StA, class StB, size_t R, class TA, class TB>
void bulk(Src &s) {
  typedef Grid<TA, R, GridNoArgCheck, StA::template type> GA;
  typedef Grid<TB, R, GridAssertCheck, StB::template type> GB;
  IBox<R> b = genIBox<R>(s, 4, 6), c = b;
  bool sameType = std::is_same<typename GA::StoragePolicyType, typename GB::StoragePolicyType>::value;
  if (!sameType && s.chance(1, 3)) {  // the right operand may be larger
    for (size_t d = 0; d < R; ++d) {
      c.lo[d] -= (int)s.range(0, 2);
      c.hi[d] += (int)s.range(0, 2);
    }
    s.label("larger right operand");
  }
  GA x(b.Lo(), b.Hi());
  GB y(c.Lo(), c.Hi());
  GA keep(b.Lo(), b.Hi());
  NOTE(s) << StA::name() << " " << b.show() << " with " << StB::name() << " " << c.show() << "\n";
  s.label(std::string(StA::name()) + " op " + StB::name());
  size_t n = b.count(), nc = c.count();
  if (n > 1) s.nontrivial();
  std::vector<TA> mx(n);
  std::vector<TB> my(nc);
  int v0 = (int)s.near0(-9, 9);
  TA v = Val<TA>::whole(v0), v1 = Val<TA>::whole(v0 + 1);
  GA &r = (x = v);
  CHECK(&r == &x, "assigning a value returns the grid");
  keep = v1;
  for (size_t k = 0; k < n; ++k) {
    mx[k] = v;
    CHECK(getAt<R>(x, b.at(k), 0) == v, "filled grid, cell " << IBox<R>::str(b.at(k)) << " reads " << valText(getAt<R>(x, b.at(k), 0)));
  }
  for (size_t k = 0; k < n; ++k)
    if (s.chance(3, 4)) {
      mx[k] = Val<TA>::whole((int)s.near0(-100, 100));
      setAt<R>(x, b.at(k), mx[k], 0);
    }
  for (size_t k = 0; k < nc; ++k) {
    my[k] = Val<TB>::of((int)s.near0(-100, 100));
    setAt<R>(y, c.at(k), my[k], 0);
  }
  int ops = (int)s.range(1, 4);
  for (int o = 0; o < ops; ++o) {
    int op = (int)s.draw(8);
    static const char *names[] = {"x+=y ", "x-=y ", "x+=x ", "x=value ", "x-=x ", "x=x[p] ", "x+=copy of x ", "x=x "};
    NOTE(s) << names[op];
    size_t at = op == 5 ? s.draw(n) : 0;
    TA own = mx[at];
    GA *res = &x;
    switch (op) {
      case 0: res = static_cast<GA *>(&(x += y)); break;
      case 1: res = static_cast<GA *>(&(x -= y)); break;
      case 2: x += x; break;
      case 3: x = Val<TA>::whole(o + 1); break;
      case 4: x -= x; break;
      case 5: x = x[b.at(at)]; break;
      case 6: {
        GA copy(x);
        x += copy;
        break;
      }
      default: {
        GA &self = x;
        x = self;
      }
    }
    CHECK(res == &x, "the operation does not return its target");
    for (size_t k = 0; k < n; ++k) {
      const TB &yy = my[c.rank_of(b.at(k))];
      TA old = mx[k];
      switch (op) {
        case 0: mx[k] += yy; break;
        case 1: mx[k] -= yy; break;
        case 2: case 6: mx[k] += old; break;
        case 3: mx[k] = Val<TA>::whole(o + 1); break;
        case 4: mx[k] -= old; break;
        case 5: mx[k] = own; break;
      }
    }
    for (size_t k = 0; k < n; ++k)
      CHECK(getAt<R>(x, b.at(k), 0) == mx[k], "operation " << op << ": cell " << IBox<R>::str(b.at(k)) << " reads " << valText(getAt<R>(x, b.at(k), 0)) << " instead of " << valText(mx[k]));
  }
  NOTE(s) << "\n";
  for (size_t k = 0; k < nc; ++k) CHECK(getAt<R>(y, c.at(k), 0) == my[k], "the right operand changed");
  for (size_t k = 0; k < n; ++k) CHECK(getAt<R>(keep, b.at(k), 0) == v1, "an unrelated grid changed");
}

template <size_t R>
void bulkRank(Src &s) {
  switch (s.draw(14)) {
    case 13: kokkosUp(), bulk<StF, StK, R, double, double>(s); break;
    case 8: bulk<StC, StF, R, int, double>(s); break;
    case 9: bulk<StF, StC, R, std::complex<double>, std::complex<double>>(s); break;
    case 10: bulk<StC, StC, R, Array<double, 2>, Array<double, 2>>(s); break;
    case 11: bulk<StL, StF, R, float, double>(s); break;
    case 12: bulk<StF, StF, R, int, double>(s); break;
    case 0: bulk<StC, StC, R, double, double>(s); break;
    case 1: bulk<StC, StF, R, double, double>(s); break;
    case 2: bulk<StF, StC, R, double, double>(s); break;
    case 3: bulk<StF, StF, R, double, double>(s); break;
    case 4: bulk<StL, StC, R, double, double>(s); break;
    case 5: bulk<StC, StL, R, double, float>(s); break;
    case 6: bulk<StL, StL, R, int, int>(s); break;
    case 7: bulk<StC, StC, R, double, int>(s); break;
  }
}
PROPERTY(grid_bulk) {
  switch (s.draw(4)) {
    case 0: bulkRank<1>(s); break;
    case 1: bulkRank<2>(s); break;
    case 2: bulkRank<3>(s); break;
    case 3: bulkRank<4>(s); break;
  }
}
