// Grids in HDF5 files: what is written is found in the file and read back, for any distribution over processes.
#define PBT_MPI
#define OMPI_SKIP_MPICXX
#include <mpi.h>
#include <unistd.h>
#include "subdiv.hpp"
#include <cmath>
#include <deque>
#include <memory>
#include "grid.hpp"
#include "parser.hpp"
#include "variables.hpp"
#include "variables/blockclasses.hpp"
#include "diagnostic/diagnostic.hpp"
#include "diagnostic/hdfdiagnostic.hpp"

using namespace schnek;
using pbt::Src;

// without parallel HDF5 one process writes the whole grid as it is in memory: no ghost cells there
#ifdef HDF_SERIAL
static const int serial = 1;
#else
static const int serial = 0;
#endif

static int nprocs() {
  int n;
  MPI_Comm_size(MPI_COMM_WORLD, &n);
  return n;
}
static int myrank() {
  int n;
  MPI_Comm_rank(MPI_COMM_WORLD, &n);
  return n;
}

namespace {

struct Quiet {
  Quiet() { H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); }
} quiet;

template <class T>
T cellOf(uint64_t salt, const int *p, size_t rank) {
  uint64_t h = salt * 0x9E3779B97F4A7C15ull + 77;
  for (size_t i = 0; i < rank; ++i) h = (h ^ (uint64_t)(p[i] + 5000)) * 1099511628211ull, h ^= h >> 29;
  return T((int64_t)(h % 2000003) - 1000000) / T(2);
}

/// every rank fails together: the collective state of HDF5 is not usable after a failure of one rank
void agree(bool ok, const std::string &msg) {
  int bad = ok ? 0 : myrank() + 1, worst = 0;
  MPI_Allreduce(&bad, &worst, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  if (!worst) return;
  char buf[2048];
  memset(buf, 0, sizeof buf);
  snprintf(buf, sizeof buf, "process %d: %s", myrank(), msg.c_str());
  MPI_Bcast(buf, sizeof buf, MPI_CHAR, worst - 1, MPI_COMM_WORLD);
  throw pbt::Fail{buf};
}

/// a distribution of a box over the active processes: slabs of any size along one dimension
template <size_t R>
struct Parts {
  std::vector<IBox<R>> part;  // by rank; meaningless for inactive ranks
};
template <size_t R>
Parts<R> split(Src &s, const IBox<R> &g, const std::vector<int> &active) {
  Parts<R> r;
  r.part.assign(nprocs(), g);
  int k = 0;
  for (int a : active) k += a;
  size_t d = 0;
  for (size_t i = 0; i < R; ++i)
    if (g.len(i) > g.len(d)) d = i;
  if (s.chance(1, 2)) {
    size_t e = (size_t)s.range(0, R - 1);
    if (g.len(e) >= k) d = e;
  }
  std::set<int> cuts;
  while ((int)cuts.size() < k - 1) {
    int c = (int)s.range(1, g.len(d) - 1);
    while (cuts.count(c)) c = c % (g.len(d) - 1) + 1;
    cuts.insert(c);
  }
  std::vector<int> c(cuts.begin(), cuts.end());
  c.insert(c.begin(), 0);
  c.push_back(g.len(d));
  int j = 0;
  for (int i = 0; i < nprocs(); ++i)
    if (active[i]) {
      r.part[i].lo[d] = g.lo[d] + c[j];
      r.part[i].hi[d] = g.lo[d] + c[j + 1] - 1;
      ++j;
    }
  return r;
}

template <size_t R>
bool nextCell(int *p, const IBox<R> &b) {
  for (size_t i = R; i-- > 0;) {
    if (++p[i] <= b.hi[i]) return true;
    p[i] = b.lo[i];
  }
  return false;
}

template <size_t R, class F>
void forBox(const IBox<R> &b, F f) {
  int p[R];
  for (size_t i = 0; i < R; ++i) {
    p[i] = b.lo[i];
    if (b.hi[i] < b.lo[i]) return;
  }
  do {
    Array<int, R> q;
    for (size_t i = 0; i < R; ++i) q[i] = p[i];
    f(q, (const int *)p);
  } while (nextCell<R>(p, b));
}

struct Att {
  std::string name;
  int type;  // 0 int, 1 float, 2 double
  std::vector<int> i;
  std::vector<float> f;
  std::vector<double> d;
  size_t n() const { return type == 0 ? i.size() : type == 1 ? f.size() : d.size(); }
};

template <class T>
struct Nat;
template <>
struct Nat<int> {
  static hid_t t() { return H5T_NATIVE_INT; }
};
template <>
struct Nat<float> {
  static hid_t t() { return H5T_NATIVE_FLOAT; }
};
template <>
struct Nat<double> {
  static hid_t t() { return H5T_NATIVE_DOUBLE; }
};

template <class T>
bool attEqual(hid_t a, const std::vector<T> &want, std::string &why) {
  hid_t t = H5Aget_type(a), sp = H5Aget_space(a);
  bool ok = H5Tequal(t, Nat<T>::t()) > 0;
  if (!ok) why = "wrong type";
  hsize_t dims[4] = {0, 0, 0, 0};
  int nd = H5Sget_simple_extent_ndims(sp);
  if (nd == 1) H5Sget_simple_extent_dims(sp, dims, nullptr);
  if (ok && (nd != 1 || dims[0] != want.size())) {
    ok = false;
    why = "wrong extent";
  }
  if (ok) {
    std::vector<T> v(want.size());
    H5Aread(a, Nat<T>::t(), v.data());
    if (v != want) {
      ok = false;
      std::ostringstream o;
      o << "value " << v[0] << " ... instead of " << want[0] << " ...";
      why = o.str();
    }
  }
  H5Sclose(sp);
  H5Tclose(t);
  return ok;
}

/// rank 0 looks at the file with the HDF5 library alone
template <size_t R, class T>
std::string inspect(hid_t f, const std::string &name, const IBox<R> &g, uint64_t salt, const std::vector<Att> &atts) {
  std::ostringstream o;
  hid_t d = H5Dopen2(f, name.c_str(), H5P_DEFAULT);
  if (d < 0) return "data set '" + name + "' is not in the file";
  hid_t sp = H5Dget_space(d), ty = H5Dget_type(d);
  int nd = H5Sget_simple_extent_ndims(sp);
  hsize_t dims[R];
  size_t total = 1;
  if (nd != (int)R) o << "data set has rank " << nd;
  else {
    H5Sget_simple_extent_dims(sp, dims, nullptr);
    for (size_t i = 0; i < R; ++i) {
      if ((int)dims[i] != g.len(i)) o << "data set '" << name << "' has extent " << dims[i] << " in dimension " << i << "; ";
      total *= dims[i];
    }
    if (H5Tequal(ty, Nat<T>::t()) <= 0) o << "data set '" << name << "' has the wrong type; ";
    if (o.str().empty()) {
      std::vector<T> v(total);
      H5Dread(d, Nat<T>::t(), H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
      size_t k = 0;
      bool bad = false;
      forBox<R>(g, [&](const Array<int, R> &, const int *p) {
        T w = cellOf<T>(salt, p, R);
        if (!bad && v[k] != w) {
          bad = true;
          o << "data set '" << name << "', cell (";
          for (size_t i = 0; i < R; ++i) o << (i ? "," : "") << p[i];
          o << ") is " << v[k] << ", expected " << w;
        }
        ++k;
      });
    }
  }
  if (o.str().empty()) {
    int n = H5Aget_num_attrs(d);
    if (n != (int)atts.size()) o << "data set '" << name << "' has " << n << " attributes, expected " << atts.size() << "; ";
    for (auto &a : atts) {
      if (H5Aexists(d, a.name.c_str()) <= 0) {
        o << "attribute " << a.name << " of '" << name << "' is missing; ";
        continue;
      }
      hid_t h = H5Aopen(d, a.name.c_str(), H5P_DEFAULT);
      std::string why;
      bool ok = a.type == 0 ? attEqual(h, a.i, why) : a.type == 1 ? attEqual(h, a.f, why) : attEqual(h, a.d, why);
      if (!ok) o << "attribute " << a.name << " of '" << name << "': " << why << "; ";
      H5Aclose(h);
    }
  }
  H5Tclose(ty);
  H5Sclose(sp);
  H5Dclose(d);
  return o.str();
}

size_t linkCount(hid_t f) {
  H5G_info_t info;
  H5Gget_info(f, &info);
  return info.nlinks;
}

template <class G>
struct Make;
template <class T, size_t R, template <size_t> class C, template <typename, size_t> class S>
struct Make<Grid<T, R, C, S>> {
  typedef Grid<T, R, C, S> G;
  static G make(const IBox<R> &inner, const IBox<R> &mem, int) { return G(mem.Lo(), mem.Hi()); }
  static IBox<R> memory(Src &s, const IBox<R> &inner, const IBox<R> &pad, int &) {
    IBox<R> m = inner;
    for (size_t i = 0; i < R; ++i) {
      m.lo[i] -= pad.lo[i];
      m.hi[i] += pad.hi[i];
    }
    return m;
  }
};

std::vector<int> genActive(Src &s) {
  std::vector<int> a(nprocs(), 1);
  if (nprocs() > 1 && s.chance(1, 4)) {
    int n = 0;
    for (int &x : a) {
      x = s.chance(1, 2);
      n += x;
    }
    if (!n) a[s.range(0, nprocs() - 1)] = 1;
    s.label("some processes inactive");
  }
  return a;
}

struct Unlink {
  std::set<std::string> f;
  ~Unlink() {
    MPI_Barrier(MPI_COMM_WORLD);
    if (myrank() == 0)
      for (auto &x : f) unlink(x.c_str());
  }
};

/// one grid written, one grid read: contents and names
template <class G, size_t R>
void roundTrip(Src &s) {
  typedef typename G::value_type T;
  int np = nprocs(), me = myrank();
  IBox<R> g;
  for (size_t d = 0; d < R; ++d) {
    g.lo[d] = s.chance(1, 3) ? 0 : (int)(s.chance(1, 12) ? s.near0(-2000000000, 2000000000) : s.near0(-30, 30));
    g.hi[d] = g.lo[d] + (s.chance(1, 8) ? (int)s.range(0, R > 2 ? 10 : 40) : (int)s.range(0, R > 2 ? 4 : 8));
  }
  size_t along = (size_t)s.range(0, R - 1);
  if (s.chance(1, 30)) {
    g.hi[along] = g.lo[along] + (int)s.range(0, R > 2 ? 200 : 2000);
    for (size_t d = 0; d < R; ++d)
      if (d != along && g.len(d) > 9) g.hi[d] = g.lo[d] + 8;
  }
  bool many = s.chance(1, 30);  // many data sets and attributes
  if (g.len(along) < np) g.hi[along] = g.lo[along] + np - 1;
  NOTE(s) << np << " processes, rank " << R << ", " << sizeof(T) << " byte elements, global " << g.show() << "\n";
  Unlink un;
  std::vector<int> active(np, 1);
  int nfiles = s.chance(1, 3) ? 2 : 1;
  std::vector<std::unique_ptr<HdfOStream>> streams;
  streams.emplace_back(new HdfOStream());
  struct Set {
    std::string file, name, base;
    int idx;  // of the sets with this base name in this file
    uint64_t salt;
    std::vector<Att> atts;
    IBox<R> g;
  };
  std::vector<std::vector<Set>> files;
  uint64_t salt = s.draw(1000) * 100;
  std::deque<Att> store;
  bool open = false;
  for (int fi = 0; fi < nfiles; ++fi) {
    std::vector<int> act = genActive(s);
    std::string base = "data";
    int cnt = 0;
    std::vector<Att> cur;
    bool attsKnown = fi == 0;
    if (fi == 0 && s.chance(1, 4)) {
      base = "early";
      NOTE(s) << "block name 'early' before the file is opened\n";
      streams.back()->setBlockName(base);
    }
    // closed streams can be copied and assigned; the copy goes on from the state of the original
    int copies = open ? 0 : (int)s.small(2);
    for (int k = 0; k < copies; ++k) {
      bool assign = s.chance(1, 2);
      if (assign) {
        HdfOStream &old = *streams.back();
        if (streams.size() > 1 && s.chance(1, 2)) std::rotate(streams.begin(), streams.begin() + 1, streams.end() - 1), std::swap(streams.back(), streams[streams.size() - 2]);
        else streams.emplace_back(new HdfOStream());
        *streams.back() = old;
      } else streams.emplace_back(new HdfOStream(*streams.back()));
      NOTE(s) << "continue with " << (assign ? "a stream assigned from the stream\n" : "a copy of the stream\n");
      s.label("copied streams");
      if (s.chance(1, 4)) {
        // what happens to the original does not matter to the copy
        HdfOStream &old = *streams[streams.size() - 2];
        std::vector<int> a2 = genActive(s);
        old.setActive(a2[me]);
        old.setBlockName("other");
        un.f.insert("other.h5");
        old.open("other.h5");
        old.close();
        NOTE(s) << "the original is changed and used for another file\n";
      }
    }
    HdfOStream &out0 = *streams.back();
    if (act != active || s.chance(1, 8)) out0.setActive(act[me]);
    active = act;
    bool all = true;
    for (int a : active) all = all && a;
    bool byName = fi == 0 && all && base == "data" && !copies && s.chance(1, 4);
    Parts<R> parts = split<R>(s, g, active);
    IBox<R> pad;
    for (size_t d = 0; d < R; ++d) pad.lo[d] = serial ? 0 : (int)s.small(3), pad.hi[d] = serial ? 0 : (int)s.small(3);
    std::string fname = "rt" + std::to_string(fi) + ".h5";
    un.f.insert(fname);
    NOTE(s) << "file " << fi << ": active";
    for (int a : active) NOTE(s) << " " << a;
    NOTE(s) << ", ghost cells " << pad.show() << "\n";
    if (byName) {
      streams.emplace_back(new HdfOStream(fname.c_str()));
      NOTE(s) << "by the constructor\n";
    } else out0.open(fname.c_str());
    HdfOStream &out = *streams.back();
    agree(out.good() == (bool)active[me], "the stream is in the wrong state after open");
    files.push_back({});
    // a file opened again keeps the block name of before
    if (fi > 0 && !s.chance(1, 2)) base = "?";
    int n = (int)s.range(1, many ? (s.chance(1, 3) && g.count() < 200 ? 200 : 40) : 4);
    std::set<std::string> used;
    for (int k = 0; k < n; ++k) {
      if (base == "?" || (fi > 0 && k == 0) || s.chance(1, many ? 20 : 2)) {
        std::vector<std::string> names = {"data", "Ex", "rho", "a b", "x1"};
        std::string nb = s.pick(names);
        if (!used.count(nb)) {
          base = nb;
          cnt = -1;
          out.setBlockName(nb);
        } else if (base == "?") throw pbt::Discard();
      }
      if (!attsKnown || s.chance(1, 3)) {
        attsKnown = true;
        pHdfAttributes pa = std::make_shared<HdfAttributes>();
        cur.clear();
        int na = (int)s.range(0, many && s.chance(1, 4) ? 40 : 3);
        for (int j = 0; j < na; ++j) {
          Att a;
          a.name = na > 3 ? "att" + std::to_string(s.range(0, 60)) : std::string(1, char('p' + s.range(0, 2)));
          a.type = (int)s.range(0, 2);
          int len = s.chance(1, 2) ? 1 : (int)s.range(1, s.chance(1, 40) ? 800 : 5);
          for (int q = 0; q < len; ++q) {
            int v = (int)s.near0(-500, 500);
            if (a.type == 0) a.i.push_back(v);
            if (a.type == 1) a.f.push_back(v / 4.f);
            if (a.type == 2) a.d.push_back(v / 4.0);
          }
          bool rep = false;
          for (auto &x : cur)
            if (x.name == a.name) {
              x = a;
              rep = true;
            }
          if (!rep) cur.push_back(a);
          store.push_back(a);
          Att &st = store.back();
          int how = len == 1 ? (int)s.range(0, 3) : 0;
          auto give = [&](const auto &v) {
            if (how == 0) pa->set(a.name, v.data(), len);
            else if (how == 1) pa->set(a.name, v.data());
            else if (how == 2) pa->set(a.name, v[0]);
            else pa->set(a.name, v[0], 1);
          };
          if (st.type == 0) give(std::as_const(st).i);
          if (st.type == 1) give(std::as_const(st).f);
          if (st.type == 2) give(std::as_const(st).d);
        }
        out.setAttributes(pa);
      }
      if (s.chance(1, 5)) {  // the sets of one file need not be of the same shape
        for (size_t d = 0; d < R; ++d) {
          if (s.chance(1, 2)) g.lo[d] = (int)s.near0(-30, 30);
          g.hi[d] = g.lo[d] + (int)s.range(0, R > 2 ? 4 : 8);
        }
        size_t e = (size_t)s.range(0, R - 1);
        if (g.len(e) < np) g.hi[e] = g.lo[e] + np - 1;
        parts = split<R>(s, g, active);
        NOTE(s) << "  from here global " << g.show() << "\n";
      } else if (s.chance(1, 8)) {
        parts = split<R>(s, g, active);
        NOTE(s) << "  another distribution\n";
      }
      std::string name = base;
      if (cnt < 0) cnt = 1;
      else name += std::to_string(cnt++);
      if (used.count(name)) throw pbt::Discard();
      used.insert(name);
      used.insert(base);
      ++salt;
      NOTE(s) << "  write '" << name << "' with " << cur.size() << " attributes\n";
      IBox<R> inner = parts.part[me];
      int dummy = 0;
      IBox<R> mem = Make<G>::memory(s, inner, pad, dummy);
      GridContainer<G> c;
      c.grid.resize(mem.Lo(), mem.Hi());
      forBox<R>(mem, [&](const Array<int, R> &q, const int *) { c.grid[q] = T(-7777777); });
      forBox<R>(inner, [&](const Array<int, R> &q, const int *p) { c.grid[q] = cellOf<T>(salt, p, R); });
      c.global_min = g.Lo();
      c.global_max = g.Hi();
      c.local_min = inner.Lo();
      c.local_max = inner.Hi();
      out.writeGrid(c);
      files.back().push_back(Set{fname, name, base, cnt - 1, salt, cur, g});
    }
    open = true;
    if (fi + 1 == nfiles || s.chance(1, 2)) {
      open = false;
      out.close();
      agree(!out.good(), "the stream is good after close");
    }
  }
  for (auto &o : streams) o->close();
  MPI_Barrier(MPI_COMM_WORLD);
  // the files themselves
  for (auto &sets : files) {
    std::string why;
    if (me == 0) {
      hid_t f = H5Fopen(sets[0].file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
      if (f < 0) why = "file " + sets[0].file + " cannot be opened";
      else {
        for (auto &x : sets)
          if (why.empty()) why = inspect<R, T>(f, x.name, x.g, x.salt, x.atts);
        if (why.empty() && linkCount(f) != sets.size()) why = "unexpected data sets in " + sets[0].file;
        H5Fclose(f);
      }
    }
    agree(why.empty(), why);
  }
  // read back with another distribution
  std::vector<std::unique_ptr<HdfIStream>> ins;
  ins.emplace_back(new HdfIStream());
  int nreads = (int)s.range(1, many ? 30 : 4);
  std::string opened;
  Set *follow = nullptr;
  Parts<R> parts;
  std::vector<int> ract(np, 1);
  bool started = false;  // whether a set has been read since the file was opened
  std::string inBase = "data";
  for (int k = 0; k < nreads; ++k) {
    auto &sets = files[s.range(0, files.size() - 1)];
    Set *px = &sets[s.range(0, sets.size() - 1)];
    bool fresh = false;
    if (follow && s.chance(2, 3)) {
      px = follow;
      fresh = true;
    }
    Set &x = *px;
    if (!fresh && (opened != x.file || s.chance(1, 4))) {
      std::vector<int> act = genActive(s);
      int how = (int)s.range(0, 7);
      bool all = true;
      for (int a : act) all = all && a;
      if (!all && how == 7) how = 6;
      if (!opened.empty() && (how > 4 || s.chance(1, 2))) ins.back()->close();
      if (how == 5) ins.emplace_back(new HdfIStream(*ins.back()));
      if (how == 6) {
        ins.emplace_back(new HdfIStream());
        *ins.back() = *ins[ins.size() - 2];
      }
      if (how == 7) {
        ins.emplace_back(new HdfIStream(x.file.c_str()));
        inBase = "data";
      } else {
        if (act != ract) ins.back()->setActive(act[me]);
        ins.back()->open(x.file.c_str());
      }
      NOTE(s) << "open " << x.file << (how < 5 ? "" : how == 5 ? " by a copy" : how == 6 ? " by an assigned stream" : " by the constructor") << "\n";
      ract = act;
      HdfIStream &in = *ins.back();
      opened = x.file;
      started = false;
      agree(in.good() == (bool)ract[me], "the input stream is in the wrong state after open");
    }
    HdfIStream &in = *ins.back();
    IBox<R> rg = x.g;
    int shift[R] = {};
    if (s.chance(1, 6))  // the file knows extents, not origins
      for (size_t d = 0; d < R; ++d) {
        int by = (int)s.near0(-20, 20);
        if (rg.lo[d] > 1000000000 || rg.lo[d] < -1000000000) by = 0;
        shift[d] = by;
        rg.lo[d] += by, rg.hi[d] += by;
      }
    parts = split<R>(s, rg, ract);
    IBox<R> inner = parts.part[me], pad;
    // by its full name, or as the next of the sets with one base name
    if (&x == follow && fresh) {
    } else if (!started && x.name == "data0" && x.base == "data" && inBase == "data" && s.chance(2, 3)) {
      // a file just opened, and no other name asked for since: numbering starts again
      fresh = true;
      follow = &x;
    } else {
      in.setBlockName(x.name);
      inBase = x.name;
    }
    started = true;
    bool chain = x.name == x.base || (&x == follow && fresh);
    follow = nullptr;
    fresh = false;
    if (chain)
      for (auto &f : files)
        for (auto &y : f)
          if (y.file == x.file && y.base == x.base && y.idx == x.idx + 1) follow = &y;
    for (size_t d = 0; d < R; ++d) pad.lo[d] = serial ? 0 : (int)s.small(2), pad.hi[d] = serial ? 0 : (int)s.small(2);
    NOTE(s) << "read '" << x.name << "' of " << x.file << " as " << rg.show() << ", ghost cells " << pad.show() << "\n";
    int dummy = 0;
    IBox<R> mem = Make<G>::memory(s, inner, pad, dummy);
    GridContainer<G> c;
    c.grid.resize(mem.Lo(), mem.Hi());
    forBox<R>(mem, [&](const Array<int, R> &q, const int *) { c.grid[q] = T(-5); });
    c.global_min = rg.Lo();
    c.global_max = rg.Hi();
    c.local_min = inner.Lo();
    c.local_max = inner.Hi();
    in.readGrid(c);
    std::ostringstream bad;
    forBox<R>(mem, [&](const Array<int, R> &q, const int *p) {
      bool own = ract[me];
      for (size_t i = 0; i < R; ++i) own = own && p[i] >= inner.lo[i] && p[i] <= inner.hi[i];
      int from[R];
      for (size_t i = 0; i < R; ++i) from[i] = p[i] - shift[i];
      T w = own ? cellOf<T>(x.salt, from, R) : T(-5);
      if (c.grid[q] != w && bad.str().empty()) {
        bad << "after reading '" << x.name << "', " << (own ? "inner" : "ghost") << " cell (";
        for (size_t i = 0; i < R; ++i) bad << (i ? "," : "") << p[i];
        bad << ") is " << c.grid[q] << ", expected " << w;
      }
    });
    agree(bad.str().empty(), bad.str());
  }
  ins.back()->close();
  s.nontrivial();
}

}  // namespace

#ifdef HDF_SERIAL
PROPERTY(hdf_serial_roundtrip) {
#else
PROPERTY(hdf_roundtrip) {
#endif
  switch (s.range(0, 8)) {
    case 7: return roundTrip<Grid<double, 2, GridAssertCheck, SingleArrayGridStorageFortran>, 2>(s);
    case 8: return roundTrip<Grid<int, 3, GridNoArgCheck, SingleArrayGridStorageFortran>, 3>(s);
    case 0: return roundTrip<Grid<double, 1>, 1>(s);
    case 1: return roundTrip<Grid<int, 2>, 2>(s);
    case 2: return roundTrip<Grid<float, 2, GridAssertCheck, LazyArrayGridStorage>, 2>(s);
    case 3: return roundTrip<Grid<double, 3>, 3>(s);
    case 4: return roundTrip<Grid<int, 4>, 4>(s);
    case 5: return roundTrip<Grid<double, 2>, 2>(s);
    default: return roundTrip<Grid<float, 3>, 3>(s);
  }
}

// ---- the blocks that write and read grids

namespace {


template <class G>
struct Maker;
template <class T, size_t R, template <size_t> class C, template <typename, size_t> class S>
struct Maker<Field<T, R, C, S>> {
  static const size_t rank = R;
  typedef T value;
  typedef Field<T, R, C, S> F;
  static IBox<R> size(F &f, const IBox<R> &inner, int ghost) {
    Range<double, R> dom(Array<double, R>(0.0), Array<double, R>(1.0));
    Array<bool, R> st;
    for (size_t i = 0; i < R; ++i) st[i] = false;
    f.resize(inner.Lo(), inner.Hi(), dom, st, ghost);
    IBox<R> m = inner;
    for (size_t i = 0; i < R; ++i) m.lo[i] -= ghost, m.hi[i] += ghost;
    return m;
  }
};
template <class T, size_t R, template <size_t> class C, template <typename, size_t> class S>
struct Maker<Grid<T, R, C, S>> {
  static const size_t rank = R;
  typedef T value;
  typedef Grid<T, R, C, S> F;
  static IBox<R> size(F &f, const IBox<R> &inner, int) {
    f.resize(inner.Lo(), inner.Hi());
    return inner;
  }
};

template <size_t R>
IBox<R> &globalBox() {
  static IBox<R> g;
  return g;
}
template <size_t R>
IBox<R> &innerBox() {
  static IBox<R> g;
  return g;
}
int ghosts;
std::string setName;
int attStep, attMode;

template <class G, class Base>
class HDiag : public HDFGridDiagnostic<G, Base> {
 public:
  typedef HDFGridDiagnostic<G, Base> Up;
  typedef typename Up::IndexType IndexType;
  static const size_t R = Maker<G>::rank;
  G data;
  IBox<R> mem;

 protected:
  void registerData() { this->addData("f", data); }
  void preInit() { mem = Maker<G>::size(data, innerBox<R>(), ghosts); }
  IndexType getGlobalMin() override { return globalBox<R>().Lo(); }
  IndexType getGlobalMax() override { return globalBox<R>().Hi(); }
  std::string getDatasetName() override { return setName.empty() ? Up::getDatasetName() : setName; }
  pHdfAttributes getAttributes() override {
    pHdfAttributes a = Up::getAttributes();
    if (attMode) a->set("step", attStep);
    return a;
  }
};
template <class G>
class HRead : public HDFGridReader<G> {
 public:
  typedef HDFGridReader<G> Up;
  typedef typename Up::IndexType IndexType;
  static const size_t R = Maker<G>::rank;
  G data;
  IBox<R> mem;
  void run() { this->execute(); }

 protected:
  void registerData() { this->addData("f", data); }
  void preInit() { mem = Maker<G>::size(data, innerBox<R>(), ghosts); }
  IndexType getGlobalMin() override { return globalBox<R>().Lo(); }
  IndexType getGlobalMax() override { return globalBox<R>().Hi(); }
  std::string getDatasetName() override { return setName.empty() ? Up::getDatasetName() : setName; }
};

struct Clk {
  int n = 0;
  double t = 0;
} clk;

template <class B>
std::shared_ptr<B> makeBlock(const std::string &text) {
  BlockClasses bc(false);
  bc.registerBlock("B").template setClass<B>();
  std::istringstream in(text);
  pBlock b;
  {
    Parser P("top", "B", bc);
    b = P.parse(in, "deck");
  }
  b->initAll();
  return std::dynamic_pointer_cast<B>(b);
}

template <class G, class Base>
void diagCase(Src &s) {
  static const size_t R = Maker<G>::rank;
  typedef typename Maker<G>::value T;
  int np = nprocs(), me = myrank();
  bool delta = std::is_same<Base, DeltaTimeDiagnostic>::value;
  IBox<R> g;
  for (size_t d = 0; d < R; ++d) {
    g.lo[d] = s.chance(1, 3) ? 0 : (int)(s.chance(1, 12) ? s.near0(-2000000000, 2000000000) : s.near0(-30, 30));
    g.hi[d] = g.lo[d] + (int)s.range(1, R > 2 ? 4 : 8);
  }
  size_t along = (size_t)s.range(0, R - 1);
  if (g.len(along) < np) g.hi[along] = g.lo[along] + np - 1;
  std::vector<int> active(np, 1);
  globalBox<R>() = g;
  innerBox<R>() = split<R>(s, g, active).part[me];
  ghosts = serial ? 0 : (int)s.range(0, 2);
  bool append = s.chance(1, 2), perTime = s.chance(2, 3);
  int interval = (int)s.range(1, 3), naming = (int)s.range(0, 2), steps = (int)s.range(0, 5);
  attMode = (int)s.range(0, 1);
  std::ostringstream deck;
  std::string fname = perTime && !append ? "hd_#t.h5" : "hd.h5";
  deck << "file = \"" << fname << "\";\nfield = \"f\";\nappend = " << append << ";\n";
  if (delta) deck << "deltaTime = " << interval << ".0;\n";
  else deck << "interval = " << interval << ";\n";
  NOTE(s) << np << " processes, rank " << R << ", global " << g.show() << ", ghost cells " << ghosts << ", names " << naming
          << ", last step " << steps << "\n"
          << deck.str();
  Unlink un;
  struct Set {
    std::string name;
    uint64_t salt;
    int step;
  };
  std::map<std::string, std::vector<Set>> files;
  uint64_t salt = 100 * s.draw(1000);
  clk = Clk();
  DiagnosticManager::instance().setPhysicalTime(&clk.t);
  DiagnosticManager::instance().setTimeCounter(&clk.n);
  {
    std::shared_ptr<HDiag<G, Base>> d = makeBlock<HDiag<G, Base>>(deck.str());
    bool sized = true;
    for (size_t i = 0; i < R; ++i) sized = sized && d->data.getLo(i) == d->mem.lo[i] && d->data.getHi(i) == d->mem.hi[i];
    agree(sized, "harness: extent of the field");
    int count = 0;
    for (int k = 0; k <= steps; ++k) {
      clk.n = k;
      clk.t = k;
      ++salt;
      setName = naming == 0 ? "" : naming == 1 ? "rho" : k / 2 % 2 ? "odd" : "even";
      attStep = k * 3;
      forBox<R>(d->mem, [&](const Array<int, R> &q, const int *) { d->data[q] = T(-7777777); });
      forBox<R>(innerBox<R>(), [&](const Array<int, R> &q, const int *p) { d->data[q] = cellOf<T>(salt, p, R); });
      if (naming == 2 && append && k > 3) break;  // the names come again
      if (k % interval == 0) {
        std::string f = fname;
        size_t pos = f.find("#t");
        if (pos != std::string::npos) f.replace(pos, 2, std::to_string(delta ? count : k));
        ++count;
        un.f.insert(f);
        if (!append) files[f].clear();
        std::string base = setName.empty() ? "data" : setName, name = base;
        int same = 0;
        for (auto &x : files[f]) same += x.name.compare(0, base.size(), base) == 0;
        if (same) name += std::to_string(same);
        files[f].push_back(Set{name, salt, attStep});
      }
      DiagnosticManager::instance().execute();
    }
  }
  MPI_Barrier(MPI_COMM_WORLD);
  for (auto &f : files) {
    std::string why;
    if (me == 0) {
      hid_t h = H5Fopen(f.first.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
      if (h < 0) why = "file " + f.first + " cannot be opened";
      else {
        for (auto &x : f.second) {
          std::vector<Att> atts;
          if (attMode) {
            Att a;
            a.name = "step";
            a.type = 0;
            a.i.push_back(x.step);
            atts.push_back(a);
          }
          if (why.empty()) why = inspect<R, T>(h, x.name, g, x.salt, atts);
        }
        if (why.empty() && linkCount(h) != f.second.size()) why = "unexpected data sets in " + f.first;
        H5Fclose(h);
      }
    }
    agree(why.empty(), why);
  }
  if (files.empty()) return;
  // and back, into a field of another shape
  int reads = (int)s.range(1, 2);
  for (int r = 0; r < reads; ++r) {
    auto it = files.begin();
    std::advance(it, s.range(0, files.size() - 1));
    const Set &x = it->second[s.range(0, it->second.size() - 1)];
    setName = x.name == "data" ? "" : x.name;
    innerBox<R>() = split<R>(s, g, active).part[me];
    ghosts = serial ? 0 : (int)s.range(0, 2);
    NOTE(s) << "read '" << x.name << "' from " << it->first << " with " << ghosts << " ghost cells\n";
    std::shared_ptr<HRead<G>> d = makeBlock<HRead<G>>("file = \"" + it->first + "\";\nfield = \"f\";\n");
    int again = (int)s.range(1, 2);
    for (int a = 0; a < again; ++a) {
      forBox<R>(d->mem, [&](const Array<int, R> &q, const int *) { d->data[q] = T(-5); });
      d->run();
      std::ostringstream bad;
      forBox<R>(d->mem, [&](const Array<int, R> &q, const int *p) {
        bool own = true;
        for (size_t i = 0; i < R; ++i) own = own && p[i] >= innerBox<R>().lo[i] && p[i] <= innerBox<R>().hi[i];
        T w = own ? cellOf<T>(x.salt, p, R) : T(-5);
        if (d->data[q] != w && bad.str().empty()) {
          bad << "after reading '" << x.name << "', " << (own ? "inner" : "ghost") << " cell (";
          for (size_t i = 0; i < R; ++i) bad << (i ? "," : "") << p[i];
          bad << ") is " << d->data[q] << ", expected " << w;
        }
      });
      agree(bad.str().empty(), bad.str());
    }
  }
  s.nontrivial();
}

}  // namespace

#ifdef HDF_SERIAL
PROPERTY(hdf_serial_diagnostics) {
#else
PROPERTY(hdf_diagnostics) {
#endif
  typedef IntervalDiagnostic I;
  typedef DeltaTimeDiagnostic D;
  switch (s.range(0, 6)) {
    case 0: return diagCase<Field<double, 2>, I>(s);
    case 1: return diagCase<Field<float, 1>, D>(s);
    case 2: return diagCase<Field<int, 3>, I>(s);
    case 3: return diagCase<Grid<double, 2>, D>(s);
    case 4: return diagCase<Grid<int, 3, GridAssertCheck>, I>(s);
    case 5: return diagCase<Field<double, 2, GridAssertCheck, SingleArrayGridStorageFortran>, I>(s);
    default: return diagCase<Field<double, 3>, D>(s);
  }
}
