// P10 serial subdivision: exchange and accumulate; P14 distribution of processes over dimensions
#include "subdiv.hpp"
#include <cmath>
#include <util/factor.hpp>
#include <algo.hpp>
#include <functions.hpp>
#include <sstream>
#include <list>
#include <util/algohelper.hpp>
#include <util/exceptions.hpp>
#include <util/unique.hpp>

using namespace schnek;
using pbt::Src;

template <size_t R>
IBox<R> genSerial(Src &s, int delta, bool twice) {
  IBox<R> all;
  size_t n = 1;
  bool big = s.chance(1, 100);
  for (size_t d = 0; d < R; ++d) {
    int lo = (int)(s.chance(1, 20) ? s.near0(-2000000000, 2000000000) : s.near0(-30, 30));
    int len = std::max(1, twice ? 2 * delta : delta) + (int)s.small(n > 300 ? 1 : n > 50 ? 3 : big ? 400 : 8);
    all.lo[d] = lo;
    all.hi[d] = lo + len + 2 * delta - 1;
    n *= len + 2 * delta;
  }
  return all;
}

template <size_t R, class G, class T>
void serialCase(Src &s, std::function<G *(const IBox<R> &inner, const IBox<R> &all, int delta)> make) {
  int delta = (int)s.range(0, R > 2 ? 2 : 4);
  if (s.chance(1, 20)) delta = (int)s.range(0, R == 1 ? 40 : R == 2 ? 10 : 4);
  const bool accCase = s.chance(1, 2);
  bool acc = accCase;
  IBox<R> all = genSerial<R>(s, delta, acc), inner = all;
  int how = (int)s.range(0, 3);
  if (how == 3)
    for (size_t d = 0; d < R; ++d) all.hi[d] -= all.lo[d], all.lo[d] = 0;
  for (size_t d = 0; d < R; ++d) inner.lo[d] = all.lo[d] + delta, inner.hi[d] = all.hi[d] - delta;
  uint64_t salt = s.draw(1000000);
  NOTE(s) << (acc ? "accumulate" : "exchange") << " rank " << R << " domain " << all.show() << " ghost cells " << delta << " init form " << how;
  std::unique_ptr<G> gps[2] = {std::unique_ptr<G>(make(inner, all, delta)), nullptr};
  SerialSubdivision<G> sub;
  DomainSubdivision<G> &base = sub;
  if (s.chance(1, 4)) {  // what the subdivision was used for before does not matter
    IBox<R> other = genSerial<R>(s, 1, true);
    NOTE(s) << " first initialised with " << other.show();
    sub.init(other.range(), 1);
  }
  if (how == 0) sub.init(all.Lo(), all.Hi(), delta);
  else if (how == 1) sub.init(all.range(), delta);
  else if (how == 2) sub.init(*gps[0], delta);
  else {
    Array<int, R> size;
    for (size_t d = 0; d < R; ++d) size[d] = all.len(d);
    sub.init(size, delta);
  }
  if (s.chance(1, 4)) sub.init(sub.getDomain(), delta);  // its own domain again
  if (s.chance(1, 4)) sub.init(sub.getLo(), sub.getHi(), delta);
  CHECK(sub.getDelta() == delta, "ghost cells");
  CHECK(boxOf<R>(sub.getDomain()) == all, "local domain " << boxOf<R>(sub.getDomain()).show());
  CHECK(boxOf<R>(sub.getInnerDomain()) == inner, "inner domain " << boxOf<R>(sub.getInnerDomain()).show());
  CHECK(boxOf<R>(sub.getGlobalDomain()) == inner, "global domain " << boxOf<R>(sub.getGlobalDomain()).show());
  for (size_t d = 0; d < R; ++d) {
    CHECK(sub.getLo()[d] == all.lo[d] && sub.getHi()[d] == all.hi[d], "limits");
    CHECK(sub.getInnerLo()[d] == inner.lo[d] && sub.getInnerHi()[d] == inner.hi[d], "inner limits");
    CHECK(sub.isBoundLo(d) && sub.isBoundHi(d), "a single process is on every boundary");
  }
  CHECK(sub.master() && sub.procnum() == 0 && sub.procCount() == 1, "process numbers");
  {
    Array<double, R> lo, hi;
    for (size_t d = 0; d < R; ++d) lo[d] = (double)s.near0(-8, 8) / 4, hi[d] = lo[d] + (double)s.range(1, 64) / 8;
    Range<double, R> ext = sub.getInnerExtent(Range<double, R>(lo, hi));
    for (size_t d = 0; d < R; ++d)
      CHECK(std::abs(ext.getLo()[d] - lo[d]) < 1e-9 && std::abs(ext.getHi()[d] - hi[d]) < 1e-9,
            "physical extent in dimension " << d << " is " << ext.getLo()[d] << ".." << ext.getHi()[d]);
  }
  int rounds = s.chance(1, 4) ? (int)s.range(2, 4) : 1;  // one subdivision serves any number of grids, again and again
  for (int round = 0; round < rounds; ++round) {
  if (round > 0) {
    salt = s.draw(1000000);
    if (accCase) acc = s.chance(1, 2);
    NOTE(s) << ", then " << (acc ? "accumulate" : "exchange");
  }
  std::unique_ptr<G> &gp = gps[round ? s.range(0, 1) : 0];
  if (!gp) gp.reset(make(inner, all, delta));
  G &g = *gp;
  markAround<R>(g, all);
  for (size_t k = 0; k < all.count(); ++k) {
    Array<int, R> p = all.at(k);
    bool gh = !inner.has(&p[0]);
    g[p] = gh ? ghostValue<T>(k, salt, 0) : cellValue<T>(k, salt);
  }
  std::vector<T> before(all.count());
  for (size_t k = 0; k < all.count(); ++k) before[k] = g[all.at(k)];
  // one dimension after the other, in a generated order, each checked
  std::vector<size_t> order;
  for (size_t d = 0; d < R; ++d) order.push_back(d);
  for (size_t d = R; d > 1; --d) std::swap(order[d - 1], order[s.range(0, d - 1)]);
  bool whole = s.chance(1, 3);
  if (whole) {
    if (acc) base.accumulate(g);
    else sub.exchange(g);
    NOTE(s) << " all dimensions at once";
  }
  std::vector<T> want = before;
  for (size_t d = 0; d < R; ++d) {
    size_t dim = whole ? d : order[d];
    std::vector<T> next = want;
    IBox<R> g1 = all;
    g1.lo[dim] = inner.lo[dim], g1.hi[dim] = inner.hi[dim];
    for (size_t k = 0; k < all.count(); ++k) {
      Array<int, R> p = all.at(k), q = p;
      q[dim] = wrap<R>(p, g1)[dim];
      if (acc) {
        // sum over all cells of the line that are images of each other
        T sum = 0;
        for (int x = all.lo[dim]; x <= all.hi[dim]; ++x) {
          Array<int, R> c = p;
          c[dim] = x;
          if (wrap<R>(c, g1)[dim] == q[dim]) sum += want[all.rank_of(c)];
        }
        next[k] = sum;
      } else if (ghostIn<R>(p, inner, dim)) next[k] = want[all.rank_of(q)];
    }
    want = next;
    if (!whole) {
      if (acc) base.accumulate(g, dim);
      else sub.exchange(g, dim);
      for (size_t k = 0; k < all.count(); ++k)
        CHECK(g[all.at(k)] == want[k], "after dimension " << dim << " cell " << IBox<R>::str(all.at(k)) << " is " << g[all.at(k)]
                                                        << ", expected " << want[k]);
    }
  }
  for (size_t k = 0; k < all.count(); ++k)
    CHECK(g[all.at(k)] == want[k], "cell " << IBox<R>::str(all.at(k)) << " is " << g[all.at(k)] << ", expected " << want[k]);
  checkAround<R>(g, all);
  }
  if (delta > 0) s.nontrivial();
  s.label(acc ? "accumulate" : "exchange");
}

template <size_t R, class T, template <class, size_t> class St>
void serialGrid(Src &s) {
  typedef Grid<T, R, GridNoArgCheck, St> G;
  serialCase<R, G, T>(s, [&, n = 0](const IBox<R> &, const IBox<R> &all, int) mutable {
    IBox<R> mem = n++ ? padded<R>(s, all) : all;
    return new G(mem.Lo(), mem.Hi());
  });
}
template <size_t R, class T>
void serialField(Src &s) {
  typedef Field<T, R> F;
  serialCase<R, F, T>(s, [](const IBox<R> &inner, const IBox<R> &, int delta) {
    Array<double, R> lo(0.0), hi(1.0);
    Array<bool, R> st(false);
    return new F(inner.Lo(), inner.Hi(), Range<double, R>(lo, hi), st, delta);
  });
}

PROPERTY(serial_exchange) {
  switch (s.range(0, 6)) {
    case 0: return serialGrid<1, double, SingleArrayGridStorage>(s);
    case 1: return serialGrid<2, int, SingleArrayGridStorage>(s);
    case 2: return serialGrid<3, long, SingleArrayGridStorageFortran>(s);
    case 3: return serialField<1, double>(s);
    case 4: return serialField<2, double>(s);
    case 5: return serialField<3, float>(s);
    default: return serialGrid<2, double, LazyArrayGridStorage>(s);
  }
}

PROPERTY(serial_data) {
  typedef SerialSubdivision<Grid<double, 2> > Sub;
  Sub sub;
  sub.init(Array<int, 2>(0, 0), Array<int, 2>(7, 7), 1);
  typedef Sub::BufferType B;
  int n = 1 + (int)s.small(4);
  B in, out;
  for (int r = 0; r < n; ++r) {
    int len = (int)s.small(s.chance(1, 60) ? 100000 : 40);
    uint64_t salt = len > 40 ? s.draw(1000000) : 0;
    std::vector<unsigned char> data(len);
    int base = s.chance(1, 2) ? 0 : (int)s.near0(-5, 5);
    if (base) in.resize(B::IndexType(base), B::IndexType(base + len - 1));
    else in.resize(B::IndexType(len));
    for (int i = 0; i < len; ++i) in(base + i) = data[i] = (unsigned char)(len > 40 ? cellValue<int>(i, salt) >> 3 : s.draw(256));
    int orient = s.chance(1, 2) ? 1 : -1;
    size_t dim = s.range(0, 1);
    NOTE(s) << " send " << len << " bytes";
    sub.exchangeData(dim, orient, in, out);
    CHECK(out.getDims(0) == len, "received " << out.getDims(0) << " bytes of " << len);
    auto ok = [&](const char *w) {
      CHECK(out.getDims(0) == len, w << ": received buffer has " << out.getDims(0) << " bytes");
      for (int i = 0; i < len; ++i) CHECK(out(out.getLo(0) + i) == data[i], w << ": byte " << i << " of the received buffer");
    };
    ok("after the exchange");
    CHECK(in.getLo(0) == base && in.getDims(0) == len, "limits of the sent buffer");
    for (int i = 0; i < len; ++i) CHECK(in(base + i) == data[i], "byte " << i << " of the sent buffer changed");
    if (len) in(base) = (unsigned char)(in(base) + 1);
    ok("after writing to the sent buffer");
    in.resize(B::IndexType((int)s.range(1, 50)));
    ok("after resizing the sent buffer");
    int ri = (int)s.near0(-100000, 100000);
    double rd = (double)s.near0(-4000, 4000) / 16.0;
    CHECK(sub.avgReduce(rd) == rd && sub.sumReduce(rd) == rd && sub.maxReduce(rd) == rd && sub.minReduce(rd) == rd, "reductions of " << rd << " on one process");
    CHECK(sub.avgReduce(ri) == ri && sub.sumReduce(ri) == ri && sub.maxReduce(ri) == ri && sub.minReduce(ri) == ri, "reductions of " << ri << " on one process");
    if (len > 1) s.nontrivial();
  }
}

PROPERTY(equal_factors) {
  int number = s.chance(1, 2) ? (int)s.range(1, 64) : (int)s.range(1, 5000);
  if (s.chance(1, 6)) {
    number = 1;
    for (int i = (int)s.range(0, 10); i-- > 0;) number *= 2;
  }
  if (s.chance(1, 8)) {  // large numbers with large factors
    int64_t n = 1;
    for (int i = (int)s.range(1, 3); i-- > 0;) n *= s.range(2, 1200);
    number = (int)n;
  }
  int parts = 0;
  for (int n = number, p = 2; n > 1; ++p)
    for (; n % p == 0; n /= p) ++parts;
  int nf = (int)s.range(1, parts > 12 ? 2 : parts > 9 ? 3 : 4);
  std::vector<int> w(nf), f;
  for (auto &x : w) x = s.chance(1, 10) ? 0 : (int)s.range(1, 1000);
  if (s.chance(1, 4)) f.assign(s.range(0, 6), 77);
  NOTE(s) << number << " processes, weights";
  for (int x : w) NOTE(s) << " " << x;
  equalFactors(number, nf, f, w);
  NOTE(s) << " ->";
  for (int x : f) NOTE(s) << " " << x;
  CHECK((int)f.size() == nf, "number of factors");
  long prod = 1;
  for (int x : f) {
    CHECK(x >= 1, "factor " << x);
    prod *= x;
  }
  CHECK(prod == number, "product is " << prod);
  if (number > 3 && nf > 1) s.nontrivial();
}


// P29: small numeric helpers
namespace {
template <class T>
void helperCase(Src &s, std::function<T()> gen, const char *type) {
  T a = gen(), b = gen();
  NOTE(s) << type << " " << a << " " << b << "; ";
  CHECK(schnek::min<T>(a, b) == (a < b ? a : b), "min(" << a << ", " << b << ") is " << schnek::min<T>(a, b));
  CHECK(schnek::max<T>(a, b) == (a < b ? b : a), "max(" << a << ", " << b << ") is " << schnek::max<T>(a, b));
  CHECK(schnek::signum0<T>(a) == (a > T(0)) - (a < T(0)), "signum0(" << a << ") is " << schnek::signum0<T>(a));
  CHECK(schnek::signum<T>(a) == (a < T(0) ? -1 : 1), "signum(" << a << ") is " << schnek::signum<T>(a));
  Array<T, 3> u, v, w;
  for (int i = 0; i < 3; ++i) u[i] = gen(), v[i] = gen(), w[i] = gen();
  Array<T, 3> u0 = u, v0 = v;
  schnek::crossProduct(w, u, v);
  for (int i = 0; i < 3; ++i) {
    int j = (i + 1) % 3, k = (i + 2) % 3;
    T want = u0[j] * v0[k] - u0[k] * v0[j];
    CHECK(w[i] == want, "component " << i << " of the vector product of (" << u0[0] << "," << u0[1] << "," << u0[2] << ") and (" << v0[0] << "," << v0[1] << "," << v0[2] << ") is " << w[i] << ", expected " << want);
    CHECK(u[i] == u0[i] && v[i] == v0[i], "an operand of the vector product changed");
  }
  std::vector<T> l;
  int n = (int)s.range(1, 12);
  T sum = T(0);
  for (int i = 0; i < n; ++i) l.push_back(gen()), sum += l.back();
  schnek::calcsum<T> cs = std::for_each(l.begin(), l.end(), schnek::calcsum<T>());
  CHECK(cs.result() == sum, "sum of " << n << " values is " << cs.result() << ", expected " << sum);
}
struct UniqueA {};
struct UniqueB {};
}  // namespace

PROPERTY(helpers) {
  switch (s.range(0, 2)) {
    case 0: helperCase<int>(s, [&] { return (int)s.near0(-1000, 1000); }, "int"); break;
    case 1: helperCase<double>(s, [&] { return s.real(-64, 64, 16); }, "double"); break;
    default: helperCase<long>(s, [&] { return (long)s.near0(-30000, 30000); }, "long"); break;
  }
  {
    // multiples of 1/8: sums are exact
    std::list<double> l;
    int n = (int)s.range(1, 20);
    double sum = 0;
    for (int i = 0; i < n; ++i) l.push_back((double)s.near0(-400, 400) / 8), sum += l.back();
    double m = schnek::mean(l.begin(), l.end());
    CHECK(m == sum / n, "mean of " << n << " values is " << m << ", expected " << sum / n);
    double m1 = schnek::mean(std::next(l.begin(), n / 2), l.end()), s1 = 0;
    for (auto i = std::next(l.begin(), n / 2); i != l.end(); ++i) s1 += *i;
    CHECK(m1 == s1 / (n - n / 2), "mean of a part");
    if (n > 1) s.nontrivial();
  }
  {
    // requirements throw exactly when they are not met, with the place and the message
    int v = (int)s.near0(-5, 5), lim = (int)s.near0(-5, 5), form = (int)s.range(0, 4);
    std::string msg, text = s.pick(std::vector<std::string>{"too small", "", "50% {}"});
    bool thrown = false;
    int line = 0;
    try {
      switch (form) {
        case 0: line = __LINE__; SCHNEK_ASSERT(v >= lim, text << " " << v); break;
        case 1: line = __LINE__; SCHNEK_REQUIRE(v >= lim, text << " " << v); break;
        case 2: line = __LINE__; SCHNEK_ENSURE(v >= lim, text << " " << v); break;
        case 3: line = __LINE__; SCHNEK_REQUIRE_E(v >= lim, text << " " << v, ScheckException); break;
        default:
          line = __LINE__ + 1;
          if (v < lim) SCHNECK_FAIL(text << " " << v);
      }
    } catch (std::exception &e) {
      thrown = true;
      msg = e.what();
    }
    CHECK(thrown == (v < lim), "requirement " << v << " >= " << lim << (thrown ? " reported as violated" : " not reported"));
    if (thrown) {
      CHECK(msg.find(text + " " + std::to_string(v)) != std::string::npos, "message \"" << msg << "\"");
      CHECK(msg.find("(" + std::to_string(line) + ")") != std::string::npos && msg.find("h_sub.cpp") != std::string::npos, "place in \"" << msg << "\"");
    }
  }
  {
    schnek::Unique<UniqueA> a1, a2;
    schnek::Unique<UniqueB> b1;
    std::vector<std::unique_ptr<schnek::Unique<UniqueA>>> more;
    std::set<long> ids = {a1.getId(), a2.getId()};
    int n = (int)s.range(0, 5);
    for (int i = 0; i < n; ++i) {
      if (s.chance(1, 2)) schnek::Unique<UniqueB> other;
      more.emplace_back(new schnek::Unique<UniqueA>);
      ids.insert(more.back()->getId());
    }
    CHECK(ids.size() == 2 + (size_t)n, "ids are not unique");
    for (int i = 0; i < n; ++i) CHECK(ids.count(more[i]->getId()), "id changed");
  }
  {
    int range = (int)s.range(1, 100000);
    unsigned sd = (unsigned)s.draw(1000000);
    srand(sd);
    int k = schnek::irand(range);
    CHECK(k >= 0 && k < range, "irand(" << range << ") is " << k << " with seed " << sd);
    double d = schnek::drand();
    CHECK(d >= 0 && d <= 1.0000001, "drand() is " << d);
    // spread: the values are not all in one half
    int low = 0, high = 0;
    for (int i = 0; i < 64; ++i) (schnek::irand(range + 1) * 2 < range + 1 ? low : high)++;
    CHECK(low > 0 && high > 0, "64 random numbers below " << range + 1 << " are all in one half");
  }
}
