// P11 tiling, P12 exchange, P13 accumulate, reductions and buffers of the MPI subdivision
#define PBT_MPI
#define OMPI_SKIP_MPICXX
#include <mpi.h>
#include "subdiv.hpp"
#include <cmath>
#include <grid/mpisubdivision.hpp>

using namespace schnek;
using pbt::Src;

static int nprocs() {
  int n;
  MPI_Comm_size(MPI_COMM_WORLD, &n);
  return n;
}
static int myrank() {
  int n;
  MPI_Comm_rank(MPI_COMM_WORLD, &n);
  return n;
}

/// gathers one int vector of every rank
static std::vector<std::vector<int> > gather(const std::vector<int> &v) {
  int n = nprocs(), k = (int)v.size();
  std::vector<int> all(n * k);
  MPI_Allgather(v.data(), k, MPI_INT, all.data(), k, MPI_INT, MPI_COMM_WORLD);
  std::vector<std::vector<int> > r;
  for (int i = 0; i < n; ++i) r.push_back(std::vector<int>(all.begin() + i * k, all.begin() + (i + 1) * k));
  return r;
}

/// every process gets cells, whatever the distribution of the processes; wide: at least as many as ghost cells
template <size_t R>
IBox<R> genGlobal(Src &s, int delta, bool wide) {
  IBox<R> g;
  int np = nprocs();
  for (size_t d = 0; d < R; ++d) {
    int lo = s.chance(1, 3) ? 0 : (int)s.near0(-40, 40);
    int len = 2 + np * (wide ? std::max(1, delta) : 1) + (int)s.small(R > 3 ? 2 : R > 2 ? 5 : wide ? 12 : 60);
    g.lo[d] = lo;
    g.hi[d] = lo + len - 1;
  }
  return g;
}

template <size_t R, class S>
void initSub(S &sub, const IBox<R> &global, int delta, int how) {
  if (how == 0) sub.init(global.Lo(), global.Hi(), delta);
  else sub.init(global.range(), delta);
}

template <size_t R, class T>
void tilingCase(Src &s) {
  typedef Field<T, R> F;
  int delta = (int)s.range(0, 3);
  IBox<R> global = genGlobal<R>(s, delta, s.chance(1, 3));
  if (R <= 2 && s.chance(1, 6)) {  // long domains, nothing is allocated for them but a layer
    size_t d = s.range(0, R - 1);
    int64_t len = (int64_t)global.len(d) + s.range(0, R == 1 ? 400000000 : 300000);
    if (R == 1 && s.chance(1, 2)) global.lo[d] = (int)s.near0(-1000000000, 1000000000);
    global.hi[d] = (int)(global.lo[d] + len - 1);
  } else if (s.chance(1, 6)) {
    size_t d = s.range(0, R - 1);
    int len = global.len(d);
    global.lo[d] = (int)s.near0(-2000000000, 2000000000);
    global.hi[d] = global.lo[d] + len - 1;
  }
  int how = (int)s.range(0, 1);
  NOTE(s) << nprocs() << " processes, global " << global.show() << " ghost cells " << delta;
  MPICartSubdivision<F> sub;
  if (s.chance(1, 8)) {  // what the subdivision was used for before does not matter
    NOTE(s) << " initialised twice";
    initSub<R>(sub, genGlobal<R>(s, 1, false), 1, 0);
  }
  bool bySize = s.chance(1, 6);
  if (bySize) {
    Array<int, R> size;
    for (size_t d = 0; d < R; ++d) {
      global.hi[d] -= global.lo[d];
      global.lo[d] = 0;
      size[d] = global.len(d);
    }
    sub.init(size, delta);
  } else initSub<R>(sub, global, delta, how);
  if (s.chance(1, 8)) sub.init(sub.getGlobalDomain(), delta);  // its own domain again
  IBox<R> inner = boxOf<R>(sub.getInnerDomain()), all = boxOf<R>(sub.getDomain());
  // everything each rank claims is gathered, then every rank checks the whole picture
  std::vector<int> v;
  for (size_t d = 0; d < R; ++d) v.push_back(inner.lo[d]), v.push_back(inner.hi[d]);
  v.push_back(sub.getUniqueId());
  v.push_back(sub.procnum());
  v.push_back(sub.master());
  std::vector<std::vector<int> > w = gather(v);
  CHECK(boxOf<R>(sub.getGlobalDomain()) == global, "global domain " << boxOf<R>(sub.getGlobalDomain()).show());
  CHECK(sub.getDelta() == delta, "number of ghost cells");
  CHECK(sub.procCount() == nprocs(), "number of processes " << sub.procCount());
  for (size_t d = 0; d < R; ++d) {
    CHECK(all.lo[d] == inner.lo[d] - delta && all.hi[d] == inner.hi[d] + delta, "local domain " << all.show() << " around " << inner.show());
    CHECK(sub.getLo()[d] == all.lo[d] && sub.getHi()[d] == all.hi[d] && sub.getInnerLo()[d] == inner.lo[d] && sub.getInnerHi()[d] == inner.hi[d], "limits");
  }
  if (global.count() <= 20000) {
    std::vector<int> owner(global.count(), -1);
    for (int r = 0; r < nprocs(); ++r) {
      IBox<R> b;
      for (size_t d = 0; d < R; ++d) b.lo[d] = w[r][2 * d], b.hi[d] = w[r][2 * d + 1];
      for (size_t k = 0; k < b.count(); ++k) {
        Array<int, R> p = b.at(k);
        CHECK(global.has(&p[0]), "process " << r << " owns " << IBox<R>::str(p) << " outside the domain");
        int &o = owner[global.rank_of(p)];
        CHECK(o < 0, "cell " << IBox<R>::str(p) << " owned by processes " << o << " and " << r);
        o = r;
      }
    }
    for (size_t k = 0; k < global.count(); ++k) CHECK(owner[k] >= 0, "cell " << IBox<R>::str(global.at(k)) << " has no owner");
  }
  // the same for domains of any size: inside, pairwise disjoint, as many cells as the domain
  size_t cells = 0;
  for (int r = 0; r < nprocs(); ++r) {
    size_t c = 1;
    for (size_t d = 0; d < R; ++d) {
      int lo = w[r][2 * d], hi = w[r][2 * d + 1];
      CHECK(lo >= global.lo[d] && hi <= global.hi[d], "process " << r << " owns " << lo << ".." << hi << " in dimension " << d);
      c *= hi < lo ? 0 : (size_t)hi - lo + 1;
    }
    cells += c;
    for (int q = 0; q < r; ++q) {
      bool apart = false;
      for (size_t d = 0; d < R; ++d) apart = apart || w[q][2 * d] > w[r][2 * d + 1] || w[r][2 * d] > w[q][2 * d + 1];
      CHECK(apart, "the parts of processes " << q << " and " << r << " overlap");
    }
  }
  CHECK(cells == global.count(), "the processes own " << cells << " cells of " << global.count());
  std::set<int> ids, nums;
  int masters = 0;
  for (auto &x : w) {
    CHECK(ids.insert(x[2 * R]).second, "unique id " << x[2 * R] << " used twice");
    CHECK(nums.insert(x[2 * R + 1]).second && x[2 * R + 1] >= 0 && x[2 * R + 1] < nprocs(), "process number " << x[2 * R + 1]);
    masters += x[2 * R + 2];
  }
  CHECK(masters == 1, masters << " master processes");
  CHECK(!inner.empty(), "no cells for this process although there are enough");
    for (size_t d = 0; d < R; ++d) {
      CHECK(sub.isBoundLo(d) == (inner.lo[d] == global.lo[d]), "isBoundLo in dimension " << d << " for " << inner.show());
      CHECK(sub.isBoundHi(d) == (inner.hi[d] == global.hi[d]), "isBoundHi in dimension " << d << " for " << inner.show());
    }
  // physical extents: a local field has its points where a global field has them
  Array<double, R> lo, hi;
  Array<bool, R> st;
  for (size_t d = 0; d < R; ++d) {
    lo[d] = (double)s.near0(-20, 20) / 4;
    hi[d] = lo[d] + (double)s.range(1, 80) / 8;
    st[d] = s.chance(1, 2);
  }
  bool zeroLow = s.chance(1, 4);
  if (zeroLow)
    for (size_t d = 0; d < R; ++d) hi[d] -= lo[d], lo[d] = 0;
  Range<double, R> dom(lo, hi);
  Range<double, R> ext = zeroLow ? sub.getInnerExtent(hi) : sub.getInnerExtent(dom);
  if (!inner.empty() && all.count() > 20000) {  // too large to build: only the extent, which is that of the cells
    for (size_t d = 0; d < R; ++d) {
      double dx = (hi[d] - lo[d]) / global.len(d), a = lo[d] + dx * ((double)inner.lo[d] - global.lo[d]), b = lo[d] + dx * ((double)inner.hi[d] - global.lo[d] + 1);
      double tol = 1e-9 * (1 + std::abs(lo[d]) + std::abs(hi[d]));
      CHECK(std::abs(ext.getLo()[d] - a) < tol && std::abs(ext.getHi()[d] - b) < tol, "physical extent in dimension " << d << " is " << ext.getLo()[d] << ".." << ext.getHi()[d] << ", expected " << a << ".." << b);
    }
  } else if (!inner.empty()) {
    F local(inner.Lo(), inner.Hi(), ext, st, delta);
    for (size_t d = 0; d < R; ++d) {
      double dx = (hi[d] - lo[d]) / global.len(d);
      for (int i = all.lo[d]; i <= all.hi[d]; ++i) {
        double x = local.indexToPosition((int)d, i), want = lo[d] + dx * (i - global.lo[d] + (st[d] ? 0.5 : 0));
        CHECK(std::abs(x - want) < 1e-9 * (1 + std::abs(want)), "position of " << i << " in dimension " << d << " is " << x << ", expected " << want);
      }
    }
  }
  if (nprocs() > 1) s.nontrivial();
}

PROPERTY(mpi_tiling) {
  switch (s.range(0, 3)) {
    case 0: return tilingCase<1, double>(s);
    case 1: return tilingCase<2, double>(s);
    case 2: return tilingCase<3, float>(s);
    default: return tilingCase<4, int>(s);
  }
}

// ---------------------------------------------------------------- exchange and accumulate

/// the global cells in the line/plane that one exchange wraps around, for the dimensions already done
template <size_t R, class T, class G>
void exchCase(Src &s, bool accCase, std::function<G *(const IBox<R> &, const IBox<R> &, int)> make) {
  bool acc = accCase;
  int delta = (int)s.range(s.chance(1, 12) ? 0 : 1, R > 2 ? 2 : s.chance(1, 12) ? 8 : 3);
  // accumulating adds ghost layers from both sides: parts are at least two layers wide
  IBox<R> global = genGlobal<R>(s, acc ? 2 * delta : delta, true);
  uint64_t salt = s.draw(1000000);
  NOTE(s) << nprocs() << " processes, " << (acc ? "accumulate" : "exchange") << " global " << global.show() << " ghost cells " << delta;
  MPICartSubdivision<G> sub;
  DomainSubdivision<G> &base = sub;
  if (s.chance(1, 8)) {
    NOTE(s) << " initialised twice";
    initSub<R>(sub, genGlobal<R>(s, 1, false), 1, 0);
  }
  initSub<R>(sub, global, delta, (int)s.range(0, 1));
  IBox<R> inner = boxOf<R>(sub.getInnerDomain()), all = boxOf<R>(sub.getDomain());
  std::vector<int> v;
  bool ok = true;
  for (size_t d = 0; d < R; ++d) {
    if (inner.len(d) < (acc ? 2 * delta : delta)) ok = false;
    v.push_back(inner.lo[d]), v.push_back(inner.hi[d]);
  }
  v.push_back(sub.procnum());
  v.push_back(ok);
  std::vector<std::vector<int> > w = gather(v);
  for (auto &x : w)
    if (!x.back()) throw pbt::Discard();
  // ghost contents of every process can be computed by every process
  std::vector<IBox<R> > inners, alls;
  for (int r = 0; r < nprocs(); ++r) {
    IBox<R> b, a;
    for (size_t d = 0; d < R; ++d) {
      b.lo[d] = w[r][2 * d], b.hi[d] = w[r][2 * d + 1];
      a.lo[d] = b.lo[d] - delta, a.hi[d] = b.hi[d] + delta;
    }
    inners.push_back(b), alls.push_back(a);
  }
  std::unique_ptr<G> gps[2];
  int rounds = s.chance(1, 3) ? (int)s.range(2, 4) : 1;  // one subdivision serves any number of grids, again and again
  std::string broken;
  for (int round = 0; round < rounds; ++round) try {
  if (round > 0) {
    salt = s.draw(1000000);
    if (accCase) acc = !s.chance(1, 3);
    NOTE(s) << ", then " << (acc ? "accumulate" : "exchange");
  }
  std::vector<std::vector<T> > state(nprocs());
  for (int r = 0; r < nprocs(); ++r) {
    state[r].resize(alls[r].count());
    for (size_t k = 0; k < alls[r].count(); ++k) {
      Array<int, R> p = alls[r].at(k);
      state[r][k] = inners[r].has(&p[0]) ? cellValue<T>(global.rank_of(p), salt) : ghostValue<T>(k, salt, r);
    }
  }
  int me = myrank();
  std::unique_ptr<G> &gp = gps[round ? s.range(0, 1) : 0];
  if (!gp) gp.reset(make(inner, all, delta));
  G &g = *gp;
  markAround<R>(g, all);
  for (size_t k = 0; k < all.count(); ++k) g[all.at(k)] = state[me][k];
  auto compare = [&](const char *when) {
    for (size_t k = 0; k < all.count(); ++k)
      CHECK(g[all.at(k)] == state[me][k], when << ": cell " << IBox<R>::str(all.at(k)) << " is " << +g[all.at(k)] << ", expected " << +state[me][k]
                                               << " (inner " << inner.show() << ")");
  };
  // model of one dimension's step: ghost slabs in that dimension mirror (or add up with) the cells they are images of
  auto step = [&](size_t dim) {
    std::vector<std::vector<T> > next = state;
    // a column is a set of processes that differ only in dim; its cells are gathered on the line of global cells
    std::vector<bool> done(nprocs(), false);
    for (int r = 0; r < nprocs(); ++r) {
      if (done[r]) continue;
      IBox<R> line = alls[r];
      line.lo[dim] = global.lo[dim], line.hi[dim] = global.hi[dim];
      std::vector<T> total(line.count(), T(0)), own(line.count(), T(0));
      for (int pass = 0; pass < 2; ++pass)
        for (int q = 0; q < nprocs(); ++q) {
          bool same = true;
          for (size_t d = 0; d < R; ++d)
            if (d != dim && (inners[q].lo[d] != inners[r].lo[d])) same = false;
          if (!same) continue;
          done[q] = true;
          for (size_t k = 0; k < alls[q].count(); ++k) {
            Array<int, R> p = alls[q].at(k);
            bool ghost = ghostIn<R>(p, inners[q], dim);
            p[dim] = wrap<R>(p, global)[dim];
            size_t c = line.rank_of(p);
            if (pass == 0) {
              total[c] += state[q][k];
              if (!ghost) own[c] = state[q][k];
            } else if (acc) next[q][k] = total[c];
            else if (ghost) next[q][k] = own[c];
          }
        }
    }
    state = next;
  };
  bool whole = s.chance(1, 3);
  std::vector<size_t> order;
  for (size_t d = 0; d < R; ++d) order.push_back(d);
  for (size_t d = R; d > 1; --d) std::swap(order[d - 1], order[s.range(0, d - 1)]);
  std::string failure;
  if (whole) {
    if (acc) base.accumulate(g);
    else sub.exchange(g);
    for (size_t d = 0; d < R; ++d) step(d);
    compare("after all dimensions");
  } else {
    for (size_t d : order) {
      if (acc) base.accumulate(g, d);
      else sub.exchange(g, d);
      step(d);
      try {
        compare("after one dimension");
      } catch (pbt::Fail &f) {
        if (failure.empty()) failure = f.msg;  // keep the processes in step, report afterwards
      }
    }
    if (!failure.empty()) throw pbt::Fail{failure};
  }
  // the order of the dimensions does not matter: every cell mirrors its global cell
  if (!acc)
    for (size_t k = 0; k < all.count(); ++k)
      CHECK(g[all.at(k)] == cellValue<T>(global.rank_of(wrap<R>(all.at(k), global)), salt), "cell " << IBox<R>::str(all.at(k)) << " is not the image of its global cell");
  checkAround<R>(g, all);
  } catch (pbt::Fail &f) {
    if (broken.empty()) broken = (round ? "use " + std::to_string(round + 1) + ": " : "") + f.msg;  // the others go on
  }
  if (!broken.empty()) throw pbt::Fail{broken};
  if (nprocs() > 1) s.nontrivial();
}

template <size_t R, class T, template <class, size_t> class St>
void exchGrid(Src &s, bool acc) {
  typedef Grid<T, R, GridNoArgCheck, St> G;
  exchCase<R, T, G>(s, acc, [&](const IBox<R> &, const IBox<R> &all, int) {
    IBox<R> mem = padded<R>(s, all);
    return new G(mem.Lo(), mem.Hi());
  });
}
template <size_t R, class T>
void exchField(Src &s, bool acc) {
  typedef Field<T, R> F;
  exchCase<R, T, F>(s, acc, [](const IBox<R> &inner, const IBox<R> &, int delta) {
    Array<double, R> lo(0.0), hi(1.0);
    Array<bool, R> st(false);
    return new F(inner.Lo(), inner.Hi(), Range<double, R>(lo, hi), st, delta);
  });
}
static void exchAny(Src &s, bool acc) {
  switch (s.range(0, 12)) {
    case 8: return exchGrid<1, unsigned long, SingleArrayGridStorage>(s, acc);
    case 9: return exchGrid<1, long double, SingleArrayGridStorageFortran>(s, acc);
    case 10: return exchGrid<1, signed char, SingleArrayGridStorage>(s, acc);
    case 11: return exchGrid<1, unsigned char, LazyArrayGridStorage>(s, acc);
    case 12: return exchField<1, unsigned short>(s, acc);
    case 0: return exchGrid<1, int, SingleArrayGridStorage>(s, acc);
    case 1: return exchField<1, double>(s, acc);
    case 2: return exchGrid<2, double, SingleArrayGridStorage>(s, acc);
    case 3: return exchField<2, float>(s, acc);
    case 4: return exchGrid<2, long, SingleArrayGridStorageFortran>(s, acc);
    case 5: return exchGrid<1, short, LazyArrayGridStorage>(s, acc);
    case 6: return exchGrid<2, unsigned int, SingleArrayGridStorage>(s, acc);
    default: return exchGrid<3, double, SingleArrayGridStorage>(s, acc);
  }
}
PROPERTY(mpi_exchange) { exchAny(s, false); }
PROPERTY(mpi_accumulate) { exchAny(s, true); }

// ---------------------------------------------------------------- reductions and raw buffers

PROPERTY(mpi_reduce) {
  typedef MPICartSubdivision<Grid<double, 2> > Sub;
  Sub sub;
  int np = nprocs();
  sub.init(Array<int, 2>(0, 0), Array<int, 2>(4 * np, 4 * np), 1);
  std::vector<double> x(np);
  std::vector<int> n(np);
  double sum = 0, amax = 0;
  long isum = 0;
  for (int i = 0; i < np; ++i) {
    x[i] = (double)s.near0(-100000, 100000) / 8;
    n[i] = (int)s.near0(-100000, 100000);
    sum += x[i];
    amax = std::max(amax, std::abs(x[i]));
    isum += n[i];
    NOTE(s) << " " << x[i] << "/" << n[i];
  }
  double mx = *std::max_element(x.begin(), x.end()), mn = *std::min_element(x.begin(), x.end());
  int imx = *std::max_element(n.begin(), n.end()), imn = *std::min_element(n.begin(), n.end());
  double a = x[myrank()];
  int b = n[myrank()];
  double rs = sub.sumReduce(a), ra = sub.avgReduce(a), rM = sub.maxReduce(a), rm = sub.minReduce(a);
  int is = sub.sumReduce(b), ia = sub.avgReduce(b), iM = sub.maxReduce(b), im = sub.minReduce(b);
  double tol = 1e-9 * (1 + amax * np);
  CHECK(std::abs(rs - sum) <= tol, "sum " << rs << " expected " << sum);
  CHECK(std::abs(ra - sum / np) <= tol, "average " << ra << " expected " << sum / np);
  CHECK(rM == mx && rm == mn, "maximum " << rM << " minimum " << rm);
  CHECK(is == isum && iM == imx && im == imn, "integer sum " << is << " maximum " << iM << " minimum " << im);
  CHECK(std::abs(ia - (double)isum / np) < 1, "integer average " << ia << " expected " << (double)isum / np);
  if (np > 1) s.nontrivial();
}

PROPERTY(mpi_data) {
  typedef MPICartSubdivision<Grid<double, 2> > Sub;
  typedef Sub::BufferType B;
  int np = nprocs();
  Sub sub;
  IBox<2> global;
  for (size_t d = 0; d < 2; ++d) {
    global.lo[d] = (int)s.near0(-10, 10);
    global.hi[d] = global.lo[d] + 2 + np * 2 + (int)s.small(20);
  }
  sub.init(global.Lo(), global.Hi(), 1);
  IBox<2> inner = boxOf<2>(sub.getInnerDomain());
  std::vector<int> v = {inner.lo[0], inner.hi[0], inner.lo[1], inner.hi[1]};
  auto w = gather(v);
  int rounds = 1 + (int)s.small(3);
  B in, out;
  std::string failure;
  for (int r = 0; r < rounds; ++r) {
    size_t dim = s.range(0, 1);
    int orient = s.chance(1, 2) ? 1 : -1;
    std::vector<int> len(np);
    for (auto &l : len) l = s.chance(1, 5) ? 0 : (int)s.small(3000);
    if (s.chance(1, 8)) len[s.draw(np)] = (int)s.range(3000, 300000);
    uint64_t salt = s.draw(100000);
    NOTE(s) << " round dim " << dim << " orientation " << orient << " lengths";
    for (int l : len) NOTE(s) << " " << l;
    int base = s.chance(1, 2) ? 0 : (int)s.near0(-5, 5);
    if (base) in.resize(B::IndexType(base), B::IndexType(base + len[myrank()] - 1));
    else in.resize(B::IndexType(len[myrank()]));
    for (int i = 0; i < len[myrank()]; ++i) in(base + i) = (unsigned char)(cellValue<int>(i, salt + myrank()));
    sub.exchangeData(dim, orient, in, out);
    // the sender is the neighbour on the other side
    int want = orient > 0 ? inner.lo[dim] - 1 : inner.hi[dim] + 1;
    int n = global.len(dim);
    want = global.lo[dim] + (((want - global.lo[dim]) % n) + n) % n;
    int from = -1;
    for (int q = 0; q < np; ++q)
      if (want >= w[q][2 * dim] && want <= w[q][2 * dim + 1] && w[q][2 * (1 - dim)] == inner.lo[1 - dim]) from = q;
    try {
      CHECK(from >= 0, "no neighbour found");
      CHECK(out.getDims(0) == len[from], "received " << out.getDims(0) << " bytes, the neighbour sent " << len[from]);
      CHECK(in.getLo(0) == base && in.getDims(0) == len[myrank()], "limits of the sent buffer");
      for (int i = 0; i < len[myrank()]; ++i)
        CHECK(in(base + i) == (unsigned char)(cellValue<int>(i, salt + myrank())), "byte " << i << " of the sent buffer changed");
      for (int i = 0; i < len[from]; ++i)
        CHECK(out(out.getLo(0) + i) == (unsigned char)(cellValue<int>(i, salt + from)), "byte " << i << " differs");
    } catch (pbt::Fail &f) {
      if (failure.empty()) failure = f.msg;  // keep the processes in step, report afterwards
    }
  }
  if (!failure.empty()) throw pbt::Fail{failure};
  if (np > 1) s.nontrivial();
}
