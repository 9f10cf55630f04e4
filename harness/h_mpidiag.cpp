// P25 over several processes: who writes, under which rank, once the domain is distributed
#define PBT_MPI
#define OMPI_SKIP_MPICXX
#include <mpi.h>
#include "boxes.hpp"
#include "pbt.hpp"
#include "grid.hpp"
#include "parser.hpp"
#include "variables.hpp"
#include "variables/blockclasses.hpp"
#include "diagnostic/diagnostic.hpp"
#include <grid/mpisubdivision.hpp>

using namespace schnek;
using pbt::Src;

namespace {
std::vector<std::string> *sink;

template <class Base>
class Rec : public Base {
 public:
  bool single = false;

 protected:
  void open(const std::string &n) override { sink->push_back("open " + n); }
  void write() override { sink->push_back("write"); }
  void close() override { sink->push_back("close"); }
  bool singleOut() override { return single; }
};

template <class B>
std::shared_ptr<B> makeBlock(const std::string &text) {
  BlockClasses bc(false);
  bc.registerBlock("B").template setClass<B>();
  std::istringstream in(text);
  pBlock b;
  {
    Parser P("top", "B", bc);
    b = P.parse(in, "deck");
  }
  b->initAll();
  return std::dynamic_pointer_cast<B>(b);
}

template <size_t R, class Base>
void diagCase(Src &s) {
  typedef MPICartSubdivision<Field<double, R>> Sub;
  int np, me;
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  MPI_Comm_rank(MPI_COMM_WORLD, &me);
  const bool delta = std::is_same<Base, DeltaTimeDiagnostic>::value;
  bool before = s.chance(1, 2), single = s.chance(1, 2), append = s.chance(1, 3);
  int every = (int)s.range(1, 3), steps = (int)s.range(0, 5);
  IBox<R> g;
  for (size_t d = 0; d < R; ++d) {
    g.lo[d] = (int)s.near0(-10, 10);
    g.hi[d] = g.lo[d] + 2 + 2 * np + (int)s.small(6);
  }
  std::string file = append ? "out" : s.pick(std::vector<std::string>{"r#p_#t", "x#p", "t#t"});
  std::ostringstream deck;
  deck << "file = \"" << file << "\";\nappend = " << append << ";\n";
  if (delta) deck << "deltaTime = " << every << ".0;\n";
  else deck << "interval = " << every << ";\n";
  NOTE(s) << np << " processes, domain " << g.show() << (single ? ", single output" : "") << (before ? ", diagnostic first" : "") << ", last step "
          << steps << "\n"
          << deck.str();
  std::vector<std::string> got;
  sink = &got;
  std::shared_ptr<Rec<Base>> diag;
  Sub sub;
  if (before) diag = makeBlock<Rec<Base>>(deck.str());
  sub.init(g.Lo(), g.Hi(), 1);
  if (!before) diag = makeBlock<Rec<Base>>(deck.str());
  diag->single = single;
  static int counter;
  static double time;
  DiagnosticManager &M = DiagnosticManager::instance();
  M.setTimeCounter(&counter);
  M.setPhysicalTime(&time);
  std::vector<std::string> want;
  int count = 0;
  for (int k = 0; k <= steps; ++k) {
    counter = k;
    time = k;
    M.execute();
    bool out = !single || sub.master();
    if (k == 0 && append && out) want.push_back("open out");
    if (k % every == 0) {
      std::string f = file;
      size_t p = f.find("#p");
      if (p != std::string::npos) f.replace(p, 2, std::to_string(sub.procnum()));
      p = f.find("#t");
      if (p != std::string::npos) f.replace(p, 2, std::to_string(delta ? count : k));
      ++count;
      if (out && !append) want.push_back("open " + f);
      if (out) want.push_back("write");
      if (out && !append) want.push_back("close");
    }
  }
  diag.reset();
  std::ostringstream a, b;
  for (auto &x : got) a << x << "; ";
  for (auto &x : want) b << x << "; ";
  // together: with single output exactly one process writes, otherwise all of them
  int mine = !got.empty(), all = 0;
  MPI_Allreduce(&mine, &all, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  CHECK(got == want, "process " << me << " (number " << sub.procnum() << (sub.master() ? ", master" : "") << ") did [ " << a.str() << "], expected [ " << b.str() << "]");
  CHECK(all == (single ? 1 : np), all << " processes wrote");
  if (np > 1) s.nontrivial();
}
}  // namespace

PROPERTY(mpi_diagnostics) {
  switch (s.range(0, 3)) {
    case 0: return diagCase<1, IntervalDiagnostic>(s);
    case 1: return diagCase<2, IntervalDiagnostic>(s);
    case 2: return diagCase<2, DeltaTimeDiagnostic>(s);
    default: return diagCase<3, DeltaTimeDiagnostic>(s);
  }
}
