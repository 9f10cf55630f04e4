// Output: the schedule of diagnostics, their files, the bibliography, text and byte streams.
#include <sys/stat.h>
#include <deque>
#include <list>
#include <functional>

#include "boxes.hpp"
#include "pbt.hpp"
#include "datastream.hpp"
#include "grid.hpp"
#include "parser.hpp"
#include "variables.hpp"
#include "variables/blockclasses.hpp"
#include "diagnostic/diagnostic.hpp"
#include "tools/literature.hpp"
#include "util/databuffer.hpp"

using pbt::Src;

// ---------------------------------------------------------------- diagnostics

namespace {

struct Ev {
  std::string who, what, file;
  bool operator==(const Ev &o) const { return who == o.who && what == o.what && file == o.file; }
};
std::vector<Ev> *sink;

std::string show(const std::vector<Ev> &v) {
  std::ostringstream o;
  for (auto &e : v) o << e.who << ":" << e.what << (e.file.empty() ? "" : "(" + e.file + ")") << " ";
  return o.str();
}

template <class Base>
class Recorder : public Base {
 public:
  int single = 0;
  std::string tag;
  std::string nameAt(int rank, int t) { return this->parsedFileName(rank, t); }
  std::string nameAt(int rank, double t) { return this->parsedFileName(rank, t); }

 protected:
  void open(const std::string &n) override {
    if (sink) sink->push_back(Ev{tag, "open", n});
  }
  void write() override {
    if (sink) sink->push_back(Ev{tag, "write", ""});
  }
  void close() override {
    if (sink) sink->push_back(Ev{tag, "close", ""});
  }
  bool singleOut() override { return single ? true : Base::singleOut(); }  // every process writes unless asked otherwise
  void initParameters(schnek::BlockParameters &p) {
    Base::initParameters(p);
    p.addParameter("single", &single, 0);
    p.addParameter("tag", &tag, std::string("?"));
  }
};
typedef Recorder<schnek::IntervalDiagnostic> RecI;
typedef Recorder<schnek::DeltaTimeDiagnostic> RecD;

struct Value {
  int step = 0, which = 0;
};
std::ostream &operator<<(std::ostream &o, const Value &v) { return o << "[" << v.which << ":" << v.step << "]\n"; }

}  // namespace

template <class Base>
class FileDiag : public schnek::SimpleFileDiagnostic<Value, Value *, Base> {
 public:
  typedef schnek::SimpleFileDiagnostic<Value, Value *, Base> Up;
  int single = 0;

 protected:
  void initParameters(schnek::BlockParameters &p) {
    Up::initParameters(p);
    p.addParameter("single", &single, 0);
  }
  void init() {
    Up::init();
    this->setSingleOut(single != 0);
  }
};
typedef FileDiag<schnek::IntervalDiagnostic> FileI;
typedef FileDiag<schnek::DeltaTimeDiagnostic> FileD;

namespace {

class Sim : public schnek::Block {
 public:
  Value v[3];
  schnek::BlockList kids() { return getChildren(); }

 protected:
  void registerData() {
    for (int i = 0; i < 3; ++i) {
      v[i].which = i;
      addData("v" + std::to_string(i), v[i]);
    }
  }
};

struct D {
  std::string name, cls, file;
  bool delta = false, isFile = false;
  std::string text;
  int life = -1;  // >= 0: a block of its own, destroyed at that step
  schnek::pBlock own;
  int append = 0, single = 0, interval = 100, which = 0;
  double dt = 1.0, delay = 0.0;
  // state of the model
  double next = 0;
  int count = 0;
  bool opened = false;
  schnek::IntervalDiagnostic *pi = nullptr;
  schnek::DeltaTimeDiagnostic *pd = nullptr;
};

std::string num(double d) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  std::string r = b;
  if (r.find_first_of(".e") == std::string::npos) r += ".0";
  return r;
}

std::string parsedName(std::string f, int rank, int t) {
  size_t p = f.find("#p");
  if (p != std::string::npos) f.replace(p, 2, std::to_string(rank));
  p = f.find("#t");
  if (p != std::string::npos) f.replace(p, 2, t < 0 ? std::string("final") : std::to_string(t));
  return f;
}

struct RmFiles {
  std::set<std::string> f;
  ~RmFiles() {
    for (auto &x : f) unlink(x.c_str());
  }
};

bool slurp(const std::string &f, std::string &out) {
  std::ifstream in(f.c_str(), std::ios::binary);
  if (!in) return false;
  std::ostringstream o;
  o << in.rdbuf();
  out = o.str();
  return true;
}

// one simulation: the clocks are kept alive by the caller until the next one has set its own
struct Clocks {
  int counter = 0;
  double time = 0;
};

void oneSim(Src &s, int number, Clocks &clk, bool &busy) {
  schnek::DiagnosticManager &M = schnek::DiagnosticManager::instance();
  std::vector<D> ds;
  bool big = s.chance(1, 50);  // many diagnostics or a long run
  int n = (int)s.range(0, big ? 60 : 4), nalone = s.chance(1, 3) ? (int)s.range(1, 2) : 0;
  int kinds = big ? (int)s.range(1, 8) : 2;
  std::string mainDeck = "int first = 1;\n";
  for (int i = 0; i < n + nalone; ++i) {
    std::ostringstream deck;
    bool alone = i >= n;
    D d;
    d.name = std::string(1, char('a' + i % 26)) + std::string(i / 26, 'q');
    d.delta = s.chance(1, kinds);
    d.isFile = !alone && s.chance(1, n > 4 ? 8 : 2);
    if (alone) d.life = (int)s.range(0, 15);
    d.cls = std::string(d.isFile ? "File" : "Rec") + (d.delta ? "D" : "I");
    static const std::vector<std::string> pat = {"o_@", "o_@_#t", "#t@", "r#p_@", "r#p_@_#t.dat", "@#t_#p", "o_@_#t_#t", "#p@#p"};
    d.file = s.pick(pat);
    d.file.replace(d.file.find('@'), 1, d.name);
    deck << "  file = \"" << d.file << "\";\n";
    if (!d.isFile) deck << "  tag = \"" << d.name << "\";\n";
    if (s.chance(1, 2)) {
      d.append = s.chance(1, 2);
      deck << "  append = " << d.append << ";\n";
    }
    if (s.chance(1, 3)) {
      d.single = 1;
      deck << "  single = 1;\n";
    }
    if (d.isFile) {
      d.which = (int)s.range(0, 2);
      deck << "  field = \"v" << d.which << "\";\n";
    }
    if (d.delta) {
      if (!s.chance(1, 6)) {
        d.dt = (double)s.range(1, 40) / 16.0;
        if (s.chance(1, 5)) d.dt = std::ldexp(d.dt, (int)s.range(0, 12) - 10);  // much closer or much further apart
        deck << "  deltaTime = " << num(d.dt) << ";\n";
      }
      if (s.chance(1, 3)) {
        d.delay = (double)s.range(0, 40) / 16.0;
        if (s.chance(1, 5)) d.delay = std::ldexp(d.delay, (int)s.range(0, 12) - 10);
        deck << "  delay = " << num(d.delay) << ";\n";
      }
      d.next = d.delay;
    } else if (!s.chance(1, 10)) {
      d.interval = s.chance(1, 20) ? (int)s.range(1, 2000000000) : (int)s.range(1, big && s.chance(1, 2) ? 300 : 7);
      deck << "  interval = " << d.interval << ";\n";
    }
    d.text = deck.str();
    if (!alone) mainDeck += d.cls + " " + d.name + " {\n" + d.text + "}\n";
    ds.push_back(d);
  }
  bool anyI = false, anyD = false;
  for (auto &d : ds) (d.delta ? anyD : anyI) = true;
  bool useI = anyI ? !s.chance(1, 12) : s.chance(1, 2), useD = anyD ? !s.chance(1, 12) : s.chance(1, 2);
  if (!useI && !useD) useI = true;
  bool order = s.chance(1, 2);
  bool master = !s.chance(1, 3);
  int rank = s.chance(1, 4) ? 0 : (int)s.range(0, s.chance(1, 10) ? 3000000 : 12);
  NOTE(s) << "-- simulation " << number << ": rank " << rank << (master ? " master" : "") << ", clocks" << (useI ? " counter" : "")
          << (useD ? " time" : "") << (order ? " (time first)" : "") << "\n"
          << mainDeck;
  for (auto &d : ds)
    if (d.life >= 0) NOTE(s) << "on its own: " << d.cls << " " << d.name << " until step " << d.life << "\n" << d.text;

  schnek::BlockClasses bc(false);
  bc.registerBlock("Sim").setClass<Sim>();
  bc.registerBlock("RecI").setClass<RecI>();
  bc.registerBlock("RecD").setClass<RecD>();
  bc.registerBlock("FileI").setClass<FileI>();
  bc.registerBlock("FileD").setClass<FileD>();
  std::istringstream in(mainDeck);
  schnek::pBlock root;
  {
    schnek::Parser P("sim", "Sim", bc);
    root = P.parse(in, "deck");
  }
  root->initAll();
  Sim *sim = dynamic_cast<Sim *>(root.get());
  for (schnek::pBlock b : sim->kids())
    for (auto &d : ds)
      if (b->getName() == d.name) {
        d.pi = dynamic_cast<schnek::IntervalDiagnostic *>(b.get());
        d.pd = dynamic_cast<schnek::DeltaTimeDiagnostic *>(b.get());
        if (d.delta) CHECK(d.pd && d.pd->getDeltaTime() == d.dt, "deltaTime of " << d.name);
        else CHECK(d.pi && d.pi->getInterval() == d.interval, "interval of " << d.name);
      }
  for (auto &d : ds)
    if (d.life >= 0) {
      std::istringstream in2(d.text);
      schnek::Parser P("alone", d.cls, bc);
      d.own = P.parse(in2, "deck");
      d.own->initAll();
      d.pi = dynamic_cast<schnek::IntervalDiagnostic *>(d.own.get());
      d.pd = dynamic_cast<schnek::DeltaTimeDiagnostic *>(d.own.get());
    }

  // a program without MPI says nothing about ranks: it is rank 0 and the master
  if (number > 0 || rank || !master || s.chance(1, 2)) {
    M.setMaster(master);
    M.setRank(rank);
  } else {
    NOTE(s) << "rank and master not set\n";
  }
  if (number > 0) {
    M.setTimeCounter(nullptr);
    M.setPhysicalTime(nullptr);
  }
  if (order && useD) M.setPhysicalTime(&clk.time);
  if (useI) M.setTimeCounter(&clk.counter);
  if (!order && useD) M.setPhysicalTime(&clk.time);

  std::vector<Ev> got;
  RmFiles files;
  std::map<std::string, std::string> want;  // contents of the written files
  struct SinkGuard {
    ~SinkGuard() { sink = nullptr; }
  } guard;
  sink = &got;

  bool missing = (anyI && !useI) || (anyD && !useD);
  if (missing) {
    s.label("clock missing");
    bool threw = false;
    try {
      M.execute();
    } catch (schnek::VariableNotInitialisedException &) {
      threw = true;
    }
    CHECK(threw, "execute() without the clock a diagnostic needs did not say so");
    if (anyD && !useD) {
      threw = false;
      try {
        M.adjustDeltaT(1.0);
      } catch (schnek::VariableNotInitialisedException &) {
        threw = true;
      }
      CHECK(threw, "adjustDeltaT() without a physical time did not say so");
    }
    for (auto &d : ds) files.f.insert(d.file), files.f.insert(parsedName(d.file, rank, 0));
    return;
  }

  // file names asked for by a diagnostic's own code, by count or by physical time
  for (schnek::pBlock b : sim->kids())
    for (auto &d : ds) {
      if (b->getName() != d.name || d.isFile) continue;
      RecI *ri = dynamic_cast<RecI *>(b.get());
      RecD *rd = dynamic_cast<RecD *>(b.get());
      int r = (int)s.small(s.chance(1, 10) ? 2000000000 : 40), c = (int)s.range(-2, s.chance(1, 10) ? 2000000000 : 2000);
      double x = s.chance(1, 3) ? (double)s.range(-100, 1000) : s.real(-5, 5, 64) * 0.1;
      std::string nc = ri ? ri->nameAt(r, c) : rd->nameAt(r, c), nx = ri ? ri->nameAt(r, x) : rd->nameAt(r, x);
      CHECK(nc == parsedName(d.file, r, c), "file name of " << d.file << " for rank " << r << ", count " << c << " is " << nc);
      std::string f = parsedName(d.file, r, 0);
      size_t at = d.file.find("#t");
      if (at == std::string::npos) CHECK(nx == f, "file name of " << d.file << " for rank " << r << " is " << nx);
      else {
        // the time stands where the mark was and gives back its value
        std::string pre = d.file.substr(0, at), post = d.file.substr(at + 2);
        auto fill = [&](std::string &q) {
          size_t k = q.find("#p");
          if (k != std::string::npos) q.replace(k, 2, std::to_string(r));
        };
        fill(pre), fill(post);
        bool ok = nx.size() >= pre.size() + post.size() && nx.compare(0, pre.size(), pre) == 0 &&
                  nx.compare(nx.size() - post.size(), post.size(), post) == 0;
        CHECK(ok, "file name of " << d.file << " for rank " << r << ", time " << num(x) << " is " << nx);
        std::string mid = nx.substr(pre.size(), nx.size() - pre.size() - post.size());
        char *end = nullptr;
        double back = strtod(mid.c_str(), &end);
        CHECK(!mid.empty() && *end == 0 && back == x, "time " << num(x) << " in the file name " << nx);
      }
    }

  // the run
  int steps = (int)s.range(0, big ? 400 : 14);
  bool fin = anyI && s.chance(1, 3);
  double base = (double)s.range(1, 48) / 16.0;
  bool adjust = useD && s.chance(1, 2);
  if (s.chance(1, 10)) base = std::ldexp(base, (int)s.range(0, 24) - 8);
  int stride = s.chance(1, 5) ? (int)s.range(2, s.chance(1, 4) ? 5000000 : 5) : 1;
  clk.counter = 0;
  clk.time = 0.0;
  for (int k = 0; k <= steps + (fin ? 1 : 0); ++k) {
    for (auto &d : ds)
      if (d.life == k) {
        NOTE(s) << "(step " << k << ": " << d.name << " destroyed)\n";
        d.own.reset();
        d.pi = nullptr;
        d.pd = nullptr;
        d.life = -2;
      }
    if (k > 0) {
      if (k > steps) clk.counter = -1 - (int)s.small(12);
      else clk.counter += stride;
      double dt = base;
      if (adjust) {
        double least = base;
        for (auto &d : ds)
          if (d.delta && d.life != -2 && d.next > clk.time) least = std::min(least, d.next - clk.time);
        dt = M.adjustDeltaT(base);
        CHECK(dt == least, "adjustDeltaT(" << base << ") at time " << clk.time << " is " << dt << ", expected " << least);
      }
      clk.time += dt;
    }
    // asking for a step is harmless at any moment, also when an output is due right now
    if (useD && s.small(3) == 0) {
      double ask = std::ldexp(1.0 + (double)s.small(64), s.chance(1, 2) ? -4 : (int)s.range(0, 20) - 8), least = ask;
      for (auto &d : ds)
        if (d.delta && d.life != -2 && d.next > clk.time) least = std::min(least, d.next - clk.time);
      double dt = M.adjustDeltaT(ask);
      CHECK(dt == least, "adjustDeltaT(" << ask << ") before the outputs of time " << clk.time << " is " << dt << ", expected " << least);
    }
    for (int i = 0; i < 3; ++i) sim->v[i].step = k;
    got.clear();
    std::vector<Ev> exp;
    for (int pass = 0; pass < 2; ++pass)
      for (auto &d : ds) {
        if (d.delta != (pass == 1) || d.life == -2) continue;
        bool out = master || !d.single;
        bool start = d.delta ? clk.time == 0.0 : clk.counter == 0;
        bool due = d.delta ? clk.time >= d.next : clk.counter < 0 || clk.counter % d.interval == 0;
        std::ostringstream val;
        val << sim->v[d.which];
        if (d.append && start && out) {
          if (!d.isFile) exp.push_back(Ev{d.name, "open", d.file});
          else want[d.file] = "";
        }
        if (!due) continue;
        std::string f = d.append ? d.file : parsedName(d.file, rank, d.delta ? d.count : clk.counter);
        if (!out) {
        } else if (d.isFile) {
          if (d.append) want[f] += val.str();
          else want[f] = val.str();
        } else {
          if (!d.append) exp.push_back(Ev{d.name, "open", f});
          exp.push_back(Ev{d.name, "write", ""});
          if (!d.append) exp.push_back(Ev{d.name, "close", ""});
        }
        busy = busy || out;
        if (d.delta) {
          d.next += d.dt;
          ++d.count;
        }
      }
    for (auto &w : want) files.f.insert(w.first);
    M.execute();
    // the order among different diagnostics is not part of the contract
    for (auto &d : ds) {
      std::vector<Ev> a, b;
      for (auto &e : got)
        if (e.who == d.name) a.push_back(e);
      for (auto &e : exp)
        if (e.who == d.name) b.push_back(e);
      CHECK(a == b, "at counter " << clk.counter << ", time " << clk.time << ": diagnostic " << d.name << " did [ " << show(a)
                                  << "], expected [ " << show(b) << "]");
      if (d.pd) CHECK(d.pd->getNextOutput() == d.next, "next output of " << d.name << " is " << d.pd->getNextOutput() << ", expected " << d.next);
    }
    CHECK(got.size() == exp.size(), "events from somewhere else: " << show(got));
    // finished files are complete at once
    for (auto &d : ds)
      if (d.isFile && !d.append)
      {
        auto w = want.find(parsedName(d.file, rank, d.delta ? d.count - 1 : clk.counter));
        if (w == want.end()) continue;
        std::string c;
        CHECK(slurp(w->first, c), "file " << w->first << " is missing");
        CHECK(c == w->second, "file " << w->first << " holds '" << c << "', expected '" << w->second << "'");
      }
  }
  sink = nullptr;
  // everything is in the files, whether or not the blocks are ever destroyed
  for (auto &w : want) {
    std::string c;
    CHECK(slurp(w.first, c), "file " << w.first << " is missing");
    CHECK(c == w.second, "file " << w.first << " holds '" << c << "', expected '" << w.second << "'");
  }
  // and nothing else was written
  for (auto &d : ds)
    if (d.isFile)
      for (int t = -1; t < (big ? 2100 : 80); ++t) {
        std::string f = parsedName(d.file, rank, t);
        if (!want.count(f)) CHECK(access(f.c_str(), F_OK) != 0, "file " << f << " was written but not due");
        if (!want.count(d.file)) CHECK(access(d.file.c_str(), F_OK) != 0, "file " << d.file << " was written but not due");
      }
}

}  // namespace

PROPERTY(diagnostic_schedule) {
  // diagnostics register with a process-wide manager
  pbt::isolated(s, [](Src &s) {
    Clocks clk;
    bool busy = false;
    oneSim(s, 0, clk, busy);  // one only: the blocks of a tree own each other and live on
    if (busy) s.nontrivial();
  });
}

// ---------------------------------------------------------------- bibliography

namespace {

typedef schnek::LiteratureReference Ref;
typedef std::string (Ref::*Getter)() const;
typedef void (Ref::*Setter)(std::string);
struct F {
  const char *name;
  Setter set;
};
const std::vector<F> &bibFields() {
  static const std::vector<F> f = {{"address", &Ref::setAddress}, {"annote", &Ref::setAnnote}, {"author", &Ref::setAuthor},
      {"booktitle", &Ref::setBooktitle}, {"chapter", &Ref::setChapter}, {"crossref", &Ref::setCrossref},
      {"edition", &Ref::setEdition}, {"editor", &Ref::setEditor}, {"eprint", &Ref::setEprint},
      {"howpublished", &Ref::setHowpublished}, {"institution", &Ref::setInstitution}, {"journal", &Ref::setJournal},
      {"key", &Ref::setKey}, {"month", &Ref::setMonth}, {"note", &Ref::setNote}, {"number", &Ref::setNumber},
      {"organization", &Ref::setOrganization}, {"pages", &Ref::setPages}, {"publisher", &Ref::setPublisher},
      {"school", &Ref::setSchool}, {"series", &Ref::setSeries}, {"title", &Ref::setTitle}, {"type", &Ref::setType},
      {"url", &Ref::setUrl}, {"doi", &Ref::setDoi}, {"volume", &Ref::setVolume}, {"year", &Ref::setYear}};
  return f;
}
typedef std::map<std::string, std::string> Fields;
struct Entry {
  std::string type, key;
  Fields fields;
};

std::string bibText(Src &s, int depth = 0) {
  static const std::vector<std::string> w = {"Yee", "K.S.", "and", "Maxwell's", "1966", "302--307", "{C}", "a=b", "\\'e", "x, y", "@", "%", "of"};
  std::string r;
  int n = (int)s.range(1, depth == 0 && s.chance(1, 200) ? 300 : 3);
  for (int i = 0; i < n; ++i) {
    if (i) r += " ";
    if (depth < 2 && s.chance(1, 8)) r += "{" + bibText(s, depth + 1) + "}";
    else r += s.pick(w);
  }
  return r;
}

/// @type{key, name={value}, ... }
std::vector<Entry> parseBib(const std::string &t) {
  std::vector<Entry> out;
  size_t p = 0;
  auto ws = [&] { while (p < t.size() && isspace((unsigned char)t[p])) ++p; };
  auto need = [&](char c) {
    ws();
    CHECK(p < t.size() && t[p] == c, "BibTeX output is malformed at offset " << p << " (expected '" << c << "'):\n" << t);
    ++p;
  };
  auto word = [&](const char *stop) {
    ws();
    size_t q = p;
    while (p < t.size() && !strchr(stop, t[p]) && !isspace((unsigned char)t[p])) ++p;
    return t.substr(q, p - q);
  };
  for (ws(); p < t.size(); ws()) {
    Entry e;
    need('@');
    e.type = word("{");
    need('{');
    e.key = word(",}");
    for (;;) {
      ws();
      if (p < t.size() && t[p] == '}') {
        ++p;
        break;
      }
      need(',');
      ws();
      if (p < t.size() && t[p] == '}') continue;  // a trailing comma is legal
      std::string n = word("=");
      need('=');
      need('{');
      size_t q = p;
      int d = 1;
      while (p < t.size() && d) {
        if (t[p] == '{') ++d;
        if (t[p] == '}') --d;
        ++p;
      }
      CHECK(d == 0, "unbalanced braces in the BibTeX output:\n" << t);
      CHECK(!e.fields.count(n), "field " << n << " of " << e.key << " appears twice");
      e.fields[n] = t.substr(q, p - 1 - q);
    }
    out.push_back(e);
  }
  return out;
}

// constructors by class: the names of their arguments in order (the key first), and how many are mandatory
struct Cls {
  const char *type;
  std::vector<const char *> args;
  size_t mandatory;
  std::function<Ref(const std::vector<std::string> &)> make;
};
template <class C, size_t... I>
Ref construct(const std::vector<std::string> &a, std::index_sequence<I...>) {
  return C(a[I]...);
}
template <class C, size_t N>
Ref makeRef(const std::vector<std::string> &a) {
  return construct<C>(a, std::make_index_sequence<N>());
}
/// with the trailing arguments left to their defaults
template <class C, size_t Min, size_t Max>
Ref makeAny(const std::vector<std::string> &a) {
  if constexpr (Min == Max) return makeRef<C, Max>(a);
  else return a.size() == Min ? makeRef<C, Min>(a) : makeAny<C, Min + 1, Max>(a);
}
const std::vector<Cls> &classes() {
  using namespace schnek;
  static const std::vector<Cls> c = {
      {"article", {"author", "title", "journal", "year", "volume", "pages", "number", "month", "note", "key"}, 4, makeAny<LiteratureArticle, 5, 11>},
      {"book", {"author", "editor", "title", "publisher", "year", "volume", "number", "series", "address", "edition", "month", "note", "key"}, 5, makeAny<LiteratureBook, 6, 14>},
      {"booklet", {"title", "author", "howpublished", "address", "month", "year", "note", "key"}, 1, makeAny<LiteratureBooklet, 2, 9>},
      {"inbook", {"author", "editor", "title", "chapter", "pages", "publisher", "year", "volume", "number", "series", "type", "address", "edition", "month", "note", "key"}, 7, makeAny<LiteratureInBook, 8, 17>},
      {"incollection", {"author", "title", "booktitle", "publisher", "year", "editor", "volume", "number", "series", "type", "chapter", "pages", "address", "edition", "month", "note", "key"}, 5, makeAny<LiteratureInCollection, 6, 18>},
      {"inproceedings", {"author", "title", "booktitle", "year", "editor", "volume", "number", "series", "pages", "address", "month", "organization", "publisher", "note", "key"}, 4, makeAny<LiteratureInProceedings, 5, 16>},
      {"manual", {"title", "author", "organization", "address", "edition", "year", "publisher", "note", "key"}, 1, makeAny<LiteratureManual, 2, 10>},
      {"mastersthesis", {"author", "title", "school", "year", "type", "address", "month", "note", "key"}, 4, makeAny<LiteratureMastersThesis, 5, 10>},
      {"misc", {"author", "title", "howpublished", "month", "year", "note", "key"}, 2, makeAny<LiteratureMisc, 3, 8>},
      {"phdthesis", {"author", "title", "school", "year", "type", "address", "month", "note", "key"}, 4, makeAny<LiteraturePhdThesis, 5, 10>},
      {"proceedings", {"title", "year", "editor", "volume", "number", "series", "address", "month", "organization", "publisher", "note", "key"}, 2, makeAny<LiteratureProceedings, 3, 13>},
      {"techreport", {"author", "title", "institution", "year", "type", "number", "address", "month", "note", "key"}, 4, makeAny<LiteratureTechReport, 5, 11>},
      {"unpublished", {"author", "title", "note", "year", "month", "key"}, 4, makeAny<LiteratureUnpublished, 5, 7>},
  };
  return c;
}

const std::vector<std::string> &typeNames() {
  static const std::vector<std::string> n = {"article", "book", "booklet", "inbook", "incollection", "inproceedings", "manual",
      "mastersthesis", "misc", "phdthesis", "proceedings", "techreport", "unpublished"};
  return n;
}

size_t occurrences(const std::string &t, const std::string &w) {
  size_t n = 0;
  for (size_t p = t.find(w); p != std::string::npos; p = t.find(w, p + 1)) ++n;
  return n;
}

}  // namespace

PROPERTY(bibliography) {
  pbt::isolated(s, [](Src &s) {
    schnek::LiteratureManager &M = schnek::LiteratureManager::instance();
    struct Known {
      Entry e;
      std::set<std::string> desc;
    };
    std::map<std::string, Known> model;
    bool many = s.chance(1, 30);
    int n = (int)s.range(0, many ? 150 : 8), ndesc = many ? (int)s.range(3, 60) : 3;
    bool fewKeys = s.chance(1, 2);
    auto verify = [&] {
      if (s.chance(1, 3)) {
        M.setTitle("A title");
        M.setSubtitle("A subtitle");
      }
      std::ostringstream bib, tex;
      bool infoFirst = s.chance(1, 2);
      if (infoFirst) M.writeInformation(tex, "refs");
      M.writeBibTex(bib);
      if (!infoFirst) M.writeInformation(tex, "refs");
      std::vector<Entry> es = parseBib(bib.str());
      std::map<std::string, int> seen;
      for (auto &e : es) {
        ++seen[e.key];
        auto it = model.find(e.key);
        if (e.key == "Schmitz2018") {  // the library's own reference comes first
          CHECK(e.type == "article" && e.fields["author"] == "Schmitz, Holger", "the library's own reference: " << bib.str());
          continue;
        }
        CHECK(it != model.end(), "entry " << e.key << " was never added");
        CHECK(e.type == it->second.e.type, "entry " << e.key << " is of type " << e.type << ", expected " << it->second.e.type);
        for (auto &f : it->second.e.fields)
          CHECK(e.fields.count(f.first) && e.fields[f.first] == f.second, "field " << f.first << " of " << e.key << " is '" << e.fields[f.first] << "', expected '" << f.second << "'");
        for (auto &f : e.fields)
          CHECK(it->second.e.fields.count(f.first), "field " << f.first << "={" << f.second << "} of " << e.key << " was never given");
      }
      for (auto &m : model) CHECK(seen[m.first] == 1, "entry " << m.first << " appears " << seen[m.first] << " times in the BibTeX output");
      CHECK(seen["Schmitz2018"] == 1, "the library's own reference is missing");
      // the document: one item per reference, with its descriptions, and the bibliography
      std::string t = tex.str();
      CHECK(occurrences(t, "\\bibliography{refs}") == 1, "the document names its bibliography once:\n" << t);
      CHECK(occurrences(t, M.getTitle()) >= 1 && occurrences(t, M.getSubtitle()) >= 1, "title and subtitle:\n" << t);
      CHECK(occurrences(t, "\\begin{itemize}") == 1 && occurrences(t, "\\end{itemize}") == 1, "the list:\n" << t);
      size_t items = 0, p = t.find("\\item ");
      std::set<std::string> cited;
      while (p != std::string::npos) {
        size_t q = t.find("\\item ", p + 1);
        std::string item = t.substr(p, (q == std::string::npos ? t.find("\\end{itemize}") : q) - p);
        ++items;
        size_t c = item.find("\\cite{");
        CHECK(c != std::string::npos, "an item without a citation: " << item);
        std::string key = item.substr(c + 6, item.find('}', c) - c - 6);
        CHECK(seen.count(key) && seen[key] == 1, "citation of " << key << ", which has no entry");
        CHECK(cited.insert(key).second, key << " is cited twice");
        if (model.count(key))
          for (int d = 0; d <= ndesc; ++d) {
            std::string w = "D" + std::to_string(d) + ".";
            size_t k = occurrences(item, w), e = model[key].desc.count(w);
            CHECK(k == e, "description " << w << " appears " << k << " times with " << key << ", expected " << e);
          }
        p = q;
      }
      CHECK(items == es.size(), items << " items for " << es.size() << " references");
    };
    for (int i = 0; i < n; ++i) {
      std::string key = many && !fewKeys ? "key" + std::to_string(s.range(0, 120)) : s.pick(std::vector<std::string>{"Yee1966", "b", "Aa:2", "zz_9", "Schmitz2018", "k-1", "B"});
      Entry e;
      e.key = key;
      Ref ref(key);
      if (s.chance(2, 3)) {
        const Cls &c = classes()[s.draw(classes().size())];
        size_t cnt = (size_t)s.range((int64_t)c.mandatory, (int64_t)c.args.size());
        std::vector<std::string> a{key};
        for (size_t j = 0; j < cnt; ++j) {
          a.push_back(s.chance(1, 5) ? "" : bibText(s));
          e.fields[c.args[j]] = a.back();
        }
        e.type = c.type;
        ref = c.make(a);
      } else {
        e.type = "misc";
        if (s.chance(3, 4)) {
          int t = (int)s.range(0, 12);
          ref.setPublicationType(Ref::PublicationType(t));
          e.type = typeNames()[t];
          CHECK(ref.getPublicationType() == Ref::PublicationType(t), "publication type");
        }
      }
      int extra = (int)s.range(0, 5);
      for (int j = 0; j < extra; ++j) {
        const F &f = bibFields()[s.draw(bibFields().size())];
        std::string v = s.chance(1, 5) ? "" : bibText(s);
        (ref.*f.set)(v);
        e.fields[f.name] = v;
      }
      for (auto it = e.fields.begin(); it != e.fields.end();)
        if (it->second.empty()) it = e.fields.erase(it);
        else ++it;
      std::string desc = "D" + std::to_string(s.range(0, ndesc)) + ".";
      NOTE(s) << "add " << desc << " @" << e.type << "{" << key;
      for (auto &f : e.fields) NOTE(s) << ", " << f.first << "={" << f.second << "}";
      NOTE(s) << "}\n";
      if (s.chance(1, 4)) {
        Ref copy(ref), other("other");
        other = copy;
        M.addReference(desc, other);
      } else M.addReference(desc, ref);
      if (!model.count(key)) model[key].e = e;
      model[key].desc.insert(desc);
      if (model[key].desc.size() > 1) s.nontrivial();
      if (model.size() > 1) s.nontrivial();
      if (s.chance(1, 10)) {  // writing does not end the collection
        NOTE(s) << "written\n";
        verify();
      }
    }
    verify();
  });
}

// ---------------------------------------------------------------- text and bytes

namespace {

template <class T>
T cellAt(uint64_t h) {
  return T((int64_t)(h % 2001) - 1000) / T(4);
}
template <>
int cellAt<int>(uint64_t h) {
  return (int)(h % 20001) - 10000;
}
template <class G, size_t R>
void streamCase(Src &s) {
  typedef typename G::value_type T;
  schnek::Array<int, R> lo, hi;
  std::ostringstream dims;
  int long_ = s.chance(1, 150) ? (int)s.range(0, R - 1) : -1;
  for (size_t i = 0; i < R; ++i) {
    lo[i] = (int)s.near0(-20, 20);
    hi[i] = lo[i] + (int)s.range(0, (int)i == long_ ? (R > 3 ? 40 : 900) : R > 3 ? 2 : 4);
    dims << "[" << lo[i] << "," << hi[i] << "]";
  }
  G g(lo, hi);
  uint64_t salt = s.draw(1u << 20);
  std::vector<int> p(R);
  for (size_t i = 0; i < R; ++i) p[i] = lo[i];
  std::vector<std::vector<std::string>> lines(1);
  // the first index runs fastest; a line per row
  bool done = false;
  size_t cells = 0;
  while (!done) {
    schnek::Array<int, R> q;
    uint64_t h = salt;
    for (size_t i = 0; i < R; ++i) {
      q[i] = p[i];
      h = (h ^ (uint64_t)(p[i] + 1000)) * 1099511628211ull;
    }
    T v = cellAt<T>(h >> 7);
    g[q] = v;
    ++cells;
    std::ostringstream o;
    o << v;
    lines.back().push_back(o.str());
    size_t d = 0;
    for (; d < R; ++d) {
      if (++p[d] <= hi[d]) break;
      p[d] = lo[d];
      if (d == 0) lines.push_back({});
    }
    done = d == R;
  }
  if (lines.back().empty()) lines.pop_back();
  NOTE(s) << "grid " << dims.str() << " of rank " << R << "\n";
  if (cells > 1) s.nontrivial();
  std::ostringstream out;
  const G &c = g;
  ::operator<<(out, c);
  std::istringstream in(out.str());
  std::string line;
  size_t k = 0;
  while (std::getline(in, line)) {
    std::istringstream w(line);
    std::vector<std::string> got;
    for (std::string x; w >> x;) got.push_back(x);
    if (got.empty()) continue;  // blank lines separate planes
    CHECK(k < lines.size(), "too many rows: " << out.str());
    CHECK(got == lines[k], "row " << k << " reads '" << line << "'; all:\n" << out.str());
    ++k;
  }
  CHECK(k == lines.size(), k << " rows instead of " << lines.size() << ":\n" << out.str());
}

struct Rec {
  int a;
  double b;
  char c[3];
  bool operator==(const Rec &o) const { return a == o.a && b == o.b && !memcmp(c, o.c, 3); }
};

template <class T>
T itemOf(Src &s);
template <>
int itemOf<int>(Src &s) {
  return (int)s.near0(-1000000, 1000000);
}
template <>
double itemOf<double>(Src &s) {
  return (double)s.near0(-4000, 4000) / 16;
}
template <>
char itemOf<char>(Src &s) {
  return (char)s.range(0, 127);
}
template <>
Rec itemOf<Rec>(Src &s) {
  Rec r;
  memset(&r, 0, sizeof r);
  r.a = itemOf<int>(s);
  r.b = itemOf<double>(s);
  for (char &c : r.c) c = itemOf<char>(s);
  return r;
}
typedef schnek::Array<double, 3> V3;
template <>
V3 itemOf<V3>(Src &s) {
  return V3(itemOf<double>(s), itemOf<double>(s), itemOf<double>(s));
}
template <class T>
bool same(const T &a, const T &b) {
  return a == b;
}
bool same(const V3 &a, const V3 &b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }

template <class T>
void bufferCase(Src &s) {
  schnek::DataBuffer<T> buf;
  int rounds = (int)s.range(1, 3);
  for (int r = 0; r < rounds; ++r) {
    int n = s.chance(1, 150) ? (int)s.range(0, 5000) : (int)s.small(24);
    std::list<T> pool;
    std::vector<T> want;
    for (int i = 0; i < n; ++i) pool.push_back(itemOf<T>(s));
    int form = (int)s.range(0, 2);
    if (form == 0) {
      std::vector<T *> v;
      for (auto &x : pool) v.push_back(&x);
      for (auto *x : v) want.push_back(*x);
      buf.makeBuffer(v);
    } else if (form == 1) {
      std::list<typename std::list<T>::iterator> v;
      for (auto it = pool.begin(); it != pool.end(); ++it)
        if (s.chance(1, 2)) v.push_back(it);
        else v.push_front(it);
      for (auto it : v) want.push_back(*it);
      buf.makeBuffer(v);
    } else {
      std::deque<T *> v;
      for (auto &x : pool) v.push_front(&x);
      for (auto *x : v) want.push_back(*x);
      buf.makeBuffer(v);
    }
    NOTE(s) << "buffer of " << n << " items of " << sizeof(T) << " bytes, container " << form << "\n";
    CHECK((size_t)buf.getBuffer().getSize() == n * sizeof(T), "buffer has " << buf.getBuffer().getSize() << " bytes");
    // the receiving side: the bytes alone
    schnek::DataBuffer<T> recv;
    recv.getBuffer().resize(buf.getBuffer().getLo(), buf.getBuffer().getHi());
    for (size_t i = 0; i < n * sizeof(T); ++i) recv.getBuffer()((int)i) = buf.getBuffer()((int)i);
    for (int side = 0; side < 2; ++side) {
      schnek::DataBuffer<T> &b = side ? recv : buf;
      size_t k = 0;
      typename schnek::DataBuffer<T>::iterator it = b.begin(), e = b.end();
      CHECK((it == e) == (n == 0) && (it != e) == (n != 0), "begin and end of " << n << " items");
      while (it != e) {
        CHECK(k < want.size(), "more than " << want.size() << " items come out");
        CHECK(same(*it, want[k]), "item " << k << " differs");
        CHECK(it.operator->() == &*it, "arrow");
        if (k & 1) ++it;
        else {
          typename schnek::DataBuffer<T>::iterator old = it++;
          CHECK(same(*old, want[k]), "item " << k << " differs after post-increment");
        }
        ++k;
      }
      CHECK(k == want.size(), k << " items instead of " << want.size());
    }
    if (n > 1) s.nontrivial();
  }
}

}  // namespace

PROPERTY(streams_text) {
  using namespace schnek;
  switch (s.range(0, 11)) {
    case 0: return streamCase<Grid<double, 1>, 1>(s);
    case 1: return streamCase<Grid<double, 2>, 2>(s);
    case 2: return streamCase<Grid<double, 3>, 3>(s);
    case 3: return streamCase<Grid<double, 4>, 4>(s);
    case 4: return streamCase<Grid<double, 5>, 5>(s);
    case 5: return streamCase<Grid<int, 1, GridAssertCheck>, 1>(s);
    case 6: return streamCase<Grid<int, 2, GridAssertCheck, SingleArrayGridStorageFortran>, 2>(s);
    case 7: return streamCase<Grid<int, 3, GridAssertCheck, SingleArrayGridStorageFortran>, 3>(s);
    case 8: return streamCase<Grid<float, 4, GridAssertCheck, SingleArrayGridStorageFortran>, 4>(s);
    case 9: return streamCase<Grid<int, 5, GridAssertCheck, SingleArrayGridStorageFortran>, 5>(s);
    case 10: return streamCase<Grid<float, 2, GridNoArgCheck, LazyArrayGridStorage>, 2>(s);
    default: {
      Array<int, 4> a;
      Array<double, 1> b;
      std::ostringstream o, e;
      for (int i = 0; i < 4; ++i) a[i] = (int)s.near0(-1000, 1000);
      b[0] = (double)s.near0(-100, 100) / 8;
      o << a << "|" << b;
      e << a[0] << " " << a[1] << " " << a[2] << " " << a[3] << "|" << b[0];
      NOTE(s) << "array " << e.str() << "\n";
      CHECK(o.str() == e.str(), "array printed as " << o.str());
      s.nontrivial();
    }
  }
}

PROPERTY(streams_bytes) {
  switch (s.range(0, 4)) {
    case 0: return bufferCase<int>(s);
    case 1: return bufferCase<double>(s);
    case 2: return bufferCase<char>(s);
    case 3: return bufferCase<Rec>(s);
    default: return bufferCase<V3>(s);
  }
}
